//! Translation of one function's body.
use crate::contracts::*;
use crate::flow::*;
use crate::krate::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::spanned::Spanned;
use syn::*;

pub type R<T> = std::result::Result<T, String>;

#[derive(Clone)]
pub struct Cx {
    pub m: usize,
    pub suf: String,
    pub self_: String,
    pub self_ty: Option<Type>,
    pub assoc: HashMap<String, Type>,
    pub hof: HashMap<String, (Expr, Box<Cx>)>,
    pub closure: bool,
    /// (inlined text) this is where the inlined body ends: its value is the value of the body
    pub tail: bool,
    /// a `return` here leaves the last loop of an inlined body: 2 before the loop, 1 inside
    pub rb: u8,
    /// operands of `?` already taken apart, by their place in the source
    pub tries: HashMap<String, String>,
    pub depth: usize,
    pub stack: Vec<String>,
    pub ty_params: HashMap<String, String>, // generic parameter -> stand-in type
}
impl Cx {
    /// not where the inlined body ends
    fn off(&self) -> Cx {
        Cx { tail: false, ..self.clone() }
    }
    fn into_loop(&self) -> Cx {
        Cx { tail: false, rb: if self.rb == 2 { 1 } else { 0 }, ..self.clone() }
    }
}
pub struct Tr<'a> {
    pub k: &'a Krate,
    pub c: &'a Contracts,
    pub fc: FnC,
    pub fname: String,
    pub nloop: usize,
    pub nat: BTreeMap<String, usize>,
    pub ntmp: usize,
    pub nclo: usize,
    pub helpers: Vec<String>,
    pub calls: BTreeSet<String>, // contracted crate functions called
    pub loops_seen: Vec<String>,
    pub shapes: BTreeMap<usize, String>, // loop -> source and adaptors
    pub inlined: BTreeSet<String>,
    pub strs: BTreeSet<String>,
}

pub fn wmark(callee: &str, empty: bool) -> String {
    format!("\u{1}{}{}\u{2}", if empty { 'n' } else { 'c' }, callee)
}
fn ts<T: quote::ToTokens>(t: &T) -> String {
    quote::quote!(#t).to_string()
}
pub fn strip_ref(t: &str) -> (usize, String) {
    let mut s = t.trim().to_string();
    let mut n = 0;
    loop {
        if let Some(r) = s.strip_prefix('&') {
            let mut r = r.trim_start().to_string();
            if r.starts_with('\'') {
                if let Some(i) = r.find(' ') {
                    r = r[i + 1..].to_string();
                }
            }
            if let Some(x) = r.strip_prefix("mut ") {
                r = x.to_string();
            }
            s = r;
            n += 1;
        } else {
            return (n, s);
        }
    }
}
fn stars(n: usize, e: &str) -> String {
    if n == 0 {
        e.to_string()
    } else {
        format!("(*{})", stars(n - 1, e))
    }
}
pub fn f64_lit(x: f64) -> String {
    match x.to_bits() {
        0 => return "F64::zero()".into(),
        0x3ff0_0000_0000_0000 => return "F64::one()".into(),
        0xbff0_0000_0000_0000 => return "F64::minus_one()".into(),
        _ => {}
    }
    format!("F64 {{ bits: 0x{:016x}u64 }}", x.to_bits())
}
const INTS: &[&str] = &["u8", "u16", "u32", "u64", "usize", "i8", "i16", "i32", "i64", "isize", "u128", "i128"];
pub fn is_int(t: &str) -> bool {
    INTS.contains(&t)
}
pub fn is_copy(t: &str) -> bool {
    is_int(t)
        || ["bool", "char", "f64", "()", "std::time::SystemTime", "std::time::Duration", "std::time::Instant", "quantile::Quantile", "metric::MetricKind", "std::cmp::Ordering", "error::ErrorKind"].contains(&t)
        || t.starts_with('&')
}
struct Chain {
    src: Source,
    ads: Vec<Ad>,
}
enum Source {
    Slice(String, String),  // expression of type &[T]; T
    Owned(String),          // OwnedIter
    MutVec(String),         // place
    Chars(String),
    Lines(String),
    Range(String, String),
    RangeIncl(String, String),
    User(String, String, bool), // expression, type, by reference
}
enum Ad {
    Map(Expr, Cx),
    Filter(Expr, Cx),
    FilterMap(Expr, Cx),
    FlatMap(Expr, Cx),
    Enumerate,
    Skip(String),
    Cloned,
}

impl<'a> Tr<'a> {
    fn tmp(&mut self) -> usize {
        self.ntmp += 1;
        self.ntmp
    }
    fn place(&self, cx: &Cx, e: &Expr) -> String {
        format!("{:?}", self.k.loc(cx.m, e.span()))
    }
    fn ent(&self, cx: &Cx, e: &Expr) -> Vec<TEntry> {
        self.k.entries(cx.m, e)
    }
    fn unparen<'e>(e: &'e Expr) -> &'e Expr {
        match e {
            Expr::Paren(p) => Self::unparen(&p.expr),
            Expr::Group(p) => Self::unparen(&p.expr),
            _ => e,
        }
    }
    /// type of an expression (first entry which is not a desugaring artefact)
    pub fn ty(&self, cx: &Cx, e: &Expr) -> R<String> {
        Ok(self.ty_adj(cx, e)?.0)
    }
    fn ty_adj(&self, cx: &Cx, e: &Expr) -> R<(String, String)> {
        let e = Self::unparen(e);
        if let Expr::Macro(m) = e {
            let n = m.mac.path.segments.last().unwrap().ident.to_string();
            if n == "format" {
                return Ok(("std::string::String".into(), "std::string::String".into()));
            }
            if n == "track" {
                let a = self.macro_args(&m.mac)?;
                return self.ty_adj(cx, &a[0]);
            }
            if n == "vec" {
                let a = self.macro_args(&m.mac)?;
                let t = if a.is_empty() { "_".to_string() } else { self.ty(cx, &a[0])? };
                return Ok((format!("std::vec::Vec<{}>", t), format!("std::vec::Vec<{}>", t)));
            }
            if n == "write" || n == "writeln" {
                let t = "std::result::Result<(), std::fmt::Error>".to_string();
                return Ok((t.clone(), t));
            }
        }
        if let Expr::Try(t) = e {
            let i = self.ty(cx, &t.expr)?;
            if let Some(a) = type_args(&i).first() {
                return Ok((a.clone(), a.clone()));
            }
        }
        let v = self.ent(cx, e);
        match v.first() {
            Some(x) => Ok((x.ty.clone(), x.adj.clone())),
            None => Err(format!("no type for `{}`", short(&ts(e)))),
        }
    }
    fn method_entry(&self, cx: &Cx, e: &ExprMethodCall) -> R<TEntry> {
        let k = format!("method:{}", e.method);
        let ex = Expr::MethodCall(e.clone());
        self.ent(cx, &ex).into_iter().find(|x| x.kind == k).ok_or_else(|| format!("unresolved method `{}`", short(&ts(e))))
    }
    fn path_entry(&self, cx: &Cx, e: &Expr) -> Option<TEntry> {
        let v = self.ent(cx, e);
        v.iter().find(|x| x.kind.starts_with("path") && !x.callee.is_empty()).cloned().or_else(|| v.into_iter().find(|x| x.kind == "local" || x.kind.starts_with("path")))
    }
    fn macro_args(&self, m: &Macro) -> R<Vec<Expr>> {
        use syn::parse::Parser;
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        p.parse2(m.tokens.clone()).map(|x| x.into_iter().collect()).map_err(|e| format!("macro arguments of {}!: {}", ts(&m.path), e))
    }

    // ------------------------------------------------------------------ types
    pub fn map_ty(&self, cx: &Cx, t: &Type) -> R<String> {
        Ok(match t {
            Type::Reference(r) => {
                let lt = r.lifetime.as_ref().map(|l| format!("{} ", l)).unwrap_or_default();
                format!("&{}{}{}", lt, if r.mutability.is_some() { "mut " } else { "" }, self.map_ty(cx, &r.elem)?)
            }
            Type::Slice(s) => format!("[{}]", self.map_ty(cx, &s.elem)?),
            Type::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|x| self.map_ty(cx, x)).collect();
                let v = v?;
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Type::Paren(p) => self.map_ty(cx, &p.elem)?,
            Type::Infer(_) => "_".into(),
            Type::Path(p) => {
                if p.qself.is_some() {
                    return Err(format!("type {}", ts(t)));
                }
                let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
                if segs[0] == "Self" && segs.len() == 2 {
                    let a = cx.assoc.get(&segs[1]).ok_or("unknown associated type")?.clone();
                    return self.map_ty(cx, &a);
                }
                if segs.len() == 1 {
                    if let Some(s) = cx.ty_params.get(&segs[0]) {
                        return Ok(s.clone());
                    }
                }
                let full = self.k.resolve(cx.m, &p.path);
                let mut lts = vec![];
                let mut args = vec![];
                let mut raw = vec![];
                if let PathArguments::AngleBracketed(a) = &p.path.segments.last().unwrap().arguments {
                    for x in &a.args {
                        match x {
                            GenericArgument::Lifetime(l) => lts.push(l.to_string()),
                            GenericArgument::Type(t) => {
                                raw.push(t.clone());
                                args.push(self.map_ty(cx, t))
                            }
                            _ => return Err(format!("generic argument in {}", ts(t))),
                        }
                    }
                }
                let ga = |base: &str, args: &[String]| {
                    let mut v = lts.clone();
                    v.extend(args.iter().cloned());
                    if v.is_empty() {
                        base.to_string()
                    } else {
                        format!("{}<{}>", base, v.join(", "))
                    }
                };
                // stand-ins which ignore their arguments
                match full.as_str() {
                    "std::sync::atomic::AtomicU64" => return Ok("StdAtomicU64".into()),
                    "std::sync::atomic::AtomicI64" => return Ok("StdAtomicI64".into()),
                    "atomic_immut::AtomicImmut" => return Ok("StdAtomicImmut".into()),
                    "std::sync::Mutex" => return Ok(if raw.first().map_or(false, |a| ts(a).ends_with("Gatherer")) { "StdGMutex" } else { "StdMutex" }.into()),
                    "std::fmt::Formatter" => return Ok("Fmt".into()),
                    "std::fmt::Result" => return Ok("FmtResult".into()),
                    "std::boxed::Box" | "Box" => {
                        if let Some(Type::TraitObject(o)) = raw.first() {
                            if ts(o).contains("FnMut (& mut Vec < Metric >) -> bool") {
                                return Ok("DynCollector".into());
                            }
                        }
                        return Err(format!("type {}", ts(t)));
                    }
                    _ => {}
                }
                let args: R<Vec<String>> = args.into_iter().collect();
                let args = args?;
                match full.as_str() {
                    "f64" | "std::f64" => "F64".into(),
                    "crate::Result" => format!("core::result::Result<{}, crate::error::ErrorKind>", args.join(", ")),
                    "std::result::Result" | "Result" => ga("core::result::Result", &args),
                    "crate::error::Error" | "crate::Error" | "error::Error" => "crate::error::ErrorKind".into(),
                    "std::sync::Arc" => ga("Arc", &args),
                    "std::sync::Weak" => ga("StdWeak", &args),
                    "std::collections::VecDeque" => ga("VDeque", &args),
                    "std::time::SystemTime" => "SystemTime".into(),
                    "std::time::Duration" => "Duration".into(),
                    "std::time::Instant" => "Instant".into(),
                    "std::sync::mpsc::Sender" => ga("StdSender", &args),
                    "std::sync::mpsc::Receiver" => ga("StdReceiver", &args),
                    "std::slice::Iter" => ga("SliceIter", &args),
                    "std::iter::Peekable" => {
                        let a = args.join("");
                        let i = a.strip_prefix("SliceIter<").ok_or_else(|| format!("type {}", ts(t)))?;
                        format!("PeekIter<{}", i)
                    }
                    "std::iter::Once" => ga("OnceIter", &args),
                    "std::vec::IntoIter" => ga("OwnedIter", &args),
                    "std::cmp::Ordering" => "Ordering".into(),
                    "Vec" | "std::vec::Vec" => ga("Vec", &args),
                    "Option" | "std::option::Option" => ga("Option", &args),
                    "String" | "std::string::String" => "String".into(),
                    "str" => "str".into(),
                    "Self" => "Self".into(),
                    s if is_int(s) || s == "bool" || s == "char" => s.to_string(),
                    s => {
                        let c = s.strip_prefix("crate::").unwrap_or(s);
                        if self.k.local_types.contains_key(c) {
                            ga(&format!("crate::{}", c), &args)
                        } else {
                            return Err(format!("type {} ({})", ts(t), s));
                        }
                    }
                }
            }
            _ => return Err(format!("type {}", ts(t))),
        })
    }
    /// map a type printed by the resolver
    fn map_rty(&self, s: &str) -> R<String> {
        let t: Type = syn::parse_str(s).map_err(|_| format!("type `{}`", s))?;
        let cx = Cx { m: 0, suf: String::new(), self_: "self".into(), self_ty: None, assoc: HashMap::new(), hof: HashMap::new(), closure: false, tail: false, rb: 0, tries: HashMap::new(), depth: 0, stack: vec![], ty_params: HashMap::new() };
        self.map_ty(&cx, &t)
    }

    // ------------------------------------------------------------------ patterns
    /// returns (pattern, prologue)
    fn pat(&mut self, cx: &Cx, p: &Pat) -> R<(String, String)> {
        self.pat_in(cx, p, false)
    }
    fn pat_in(&mut self, cx: &Cx, p: &Pat, deref: bool) -> R<(String, String)> {
        Ok(match p {
            Pat::Wild(_) => ("_".into(), String::new()),
            Pat::Ident(i) => {
                if i.subpat.is_some() {
                    return Err("pattern @".into());
                }
                let n = i.ident.to_string();
                // a path pattern (None, constants)?
                if i.by_ref.is_none() && i.mutability.is_none() && self.k.pat_ty(cx.m, &i.ident).is_none() && n.chars().next().unwrap().is_uppercase() {
                    if n == "None" {
                        return Ok(("None".into(), String::new()));
                    }
                    let f = self.k.resolve(cx.m, &syn::parse_str(&n).unwrap());
                    return Ok((f, String::new()));
                }
                let nn = format!("{}{}", n, cx.suf);
                let mu = if i.mutability.is_some() && i.by_ref.is_none() { "mut " } else { "" };
                if deref && i.by_ref.is_none() {
                    (nn.clone(), format!("let {}{} = *{};\n", mu, nn, nn))
                } else {
                    (format!("{}{}", mu, nn), String::new())
                }
            }
            Pat::Reference(r) => {
                return self.pat_in(cx, &r.pat, true);
            }
            Pat::Paren(x) => return self.pat_in(cx, &x.pat, deref),
            Pat::Tuple(t) => {
                let mut v = vec![];
                let mut pr = String::new();
                for x in &t.elems {
                    let (a, b) = self.pat_in(cx, x, deref)?;
                    v.push(a);
                    pr.push_str(&b);
                }
                (if v.len() == 1 { format!("({},)", v[0]) } else { format!("({})", v.join(", ")) }, pr)
            }
            Pat::TupleStruct(t) => {
                let mut v = vec![];
                let mut pr = String::new();
                for x in &t.elems {
                    let (a, b) = self.pat_in(cx, x, deref)?;
                    v.push(a);
                    pr.push_str(&b);
                }
                (format!("{}({})", self.ctor_path(cx, &t.path), v.join(", ")), pr)
            }
            Pat::Struct(s) => {
                let mut v = vec![];
                let mut pr = String::new();
                for x in &s.fields {
                    let (a, b) = self.pat_in(cx, &x.pat, deref)?;
                    v.push(format!("{}: {}", ts(&x.member), a));
                    pr.push_str(&b);
                }
                if s.rest.is_some() {
                    v.push("..".into())
                }
                (format!("{} {{ {} }}", self.ctor_path(cx, &s.path), v.join(", ")), pr)
            }
            Pat::Path(p) => (self.ctor_path(cx, &p.path), String::new()),
            Pat::Or(o) => {
                let mut v = vec![];
                for x in &o.cases {
                    let (a, b) = self.pat_in(cx, x, deref)?;
                    if !b.is_empty() {
                        return Err("dereferencing or-pattern".into());
                    }
                    v.push(a)
                }
                (v.join(" | "), String::new())
            }
            Pat::Lit(l) => (self.lit(&l.lit)?, String::new()),
            Pat::Range(r) => {
                let s = |e: &Option<Box<Expr>>, me: &mut Self| -> R<String> {
                    match e {
                        Some(e) => me.expr(e, cx),
                        None => Err("open range pattern".into()),
                    }
                };
                let a = s(&r.start, self)?;
                let b = s(&r.end, self)?;
                if matches!(r.limits, RangeLimits::Closed(_)) {
                    (format!("{}..={}", a, b), String::new())
                } else {
                    return Err("half-open range pattern".into());
                }
            }
            Pat::Type(t) => return self.pat_in(cx, &t.pat, deref),
            _ => return Err(format!("pattern {}", short(&ts(p)))),
        })
    }
    fn ctor_path(&self, cx: &Cx, p: &Path) -> String {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        if segs[0] == "Self" {
            if let Some(t) = cx.self_ty.as_ref().and_then(|t| self.k.crate_type(cx.m, t)) {
                let mut v = vec![format!("crate::{}", t)];
                v.extend(segs[1..].to_vec());
                return v.join("::");
            }
        }
        let f = self.k.resolve(cx.m, p);
        self.std_ctor(&f)
    }
    fn std_ctor(&self, f: &str) -> String {
        let last = f.rsplit("::").next().unwrap().to_string();
        if f.starts_with("std::cmp::Ordering::") {
            return format!("Ordering::{}", last);
        }
        if f.starts_with("std::sync::atomic::Ordering::") {
            return format!("MemOrd::{}", last);
        }
        if ["Some", "None", "Ok", "Err"].contains(&last.as_str()) && !f.starts_with("crate::") {
            return last;
        }
        if f.starts_with("crate::") {
            return f.to_string();
        }
        format!("crate::{}", f)
    }
    fn lit(&mut self, l: &Lit) -> R<String> {
        Ok(match l {
            Lit::Str(s) => {
                self.strs.insert(s.value());
                format!("{:?}", s.value())
            }
            Lit::Float(f) => f64_lit(f.base10_parse::<f64>().map_err(|e| e.to_string())?),
            Lit::Int(i) => {
                if i.suffix() == "f64" {
                    f64_lit(i.base10_parse::<f64>().map_err(|e| e.to_string())?)
                } else {
                    ts(i)
                }
            }
            x => ts(x),
        })
    }

    // ------------------------------------------------------------------ statements
    pub fn block(&mut self, b: &Block, cx: &Cx) -> R<String> {
        let s = self.stmts(&b.stmts, cx, None)?;
        Ok(format!("{{\n{}}}", s))
    }
    /// `exit`: proof text wanted before the tail value (function level only)
    pub fn stmts(&mut self, ss: &[Stmt], cx: &Cx, top: Option<&FnC>) -> R<String> {
        let mut o = String::new();
        let n = ss.len();
        for (i, s) in ss.iter().enumerate() {
            if let Some(f) = top {
                if let Some(t) = f.before.get(&i) {
                    o.push_str(t);
                }
            }
            if cx.closure && cx.tail {
                if let Some(code) = self.cps(s, &ss[i + 1..], cx)? {
                    o.push_str(&code);
                    return Ok(o);
                }
            }
            let whole = cx;
            let off = cx.off();
            let cx = &off;
            match s {
                Stmt::Local(l) => {
                    let (pt, tyann) = match &l.pat {
                        Pat::Type(t) => ((*t.pat).clone(), Some((*t.ty).clone())),
                        p => (p.clone(), None),
                    };
                    let init = match &l.init {
                        None => {
                            let (p, _) = self.pat(cx, &pt)?;
                            o.push_str(&format!("let {};\n", p));
                            continue;
                        }
                        Some(x) => x,
                    };
                    if let Some((_, d)) = &init.diverge {
                        let e = self.scrutinee(&init.expr, &[&pt], cx)?;
                        let (p, pr) = self.pat(cx, &pt)?;
                        let d = self.expr(d, cx)?;
                        let d = if d.starts_with('{') { d } else { format!("{{ {}; }}", d) };
                        o.push_str(&format!("let {} = {} else {};\n{}", p, e, d, pr));
                        continue;
                    }
                    if let Expr::Closure(_) = Self::unparen(&init.expr) {
                        // a named closure: inlined where it is called or passed
                        if let Pat::Ident(id) = &pt {
                            let mut c2 = whole.clone();
                            let nm = id.ident.to_string();
                            c2.hof.insert(nm, ((*init.expr).clone(), Box::new(cx.clone())));
                            o.push_str(&self.stmts_rest(ss, i + 1, &c2, top)?);
                            return Ok(o);
                        }
                    }
                    let t = self.ty(cx, &init.expr).unwrap_or_default();
                    if is_guard(&t) {
                        return Err("a lock guard bound by let".into());
                    }
                    let e = self.expr(&init.expr, cx)?;
                    let e = if self.pat_has_ref(&pt) { self.as_ref_scrut(&e, &init.expr, cx)? } else { e };
                    let (p, pr) = self.pat(cx, &pt)?;
                    let ann = match tyann {
                        Some(t) => match self.map_ty(cx, &t) {
                            Ok(s) => format!(": {}", s),
                            Err(_) => String::new(),
                        },
                        None => String::new(),
                    };
                    o.push_str(&format!("let {}{} = {};\n{}", p, ann, e, pr));
                }
                Stmt::Expr(e, semi) => {
                    if i + 1 == n && semi.is_none() {
                        let x = match e {
                            // a loop which ends a unit body: leaving the body is leaving the loop
                            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) if whole.closure && whole.tail => self.expr(e, &Cx { rb: 2, ..cx.clone() })?,
                            _ => self.expr(e, whole)?,
                        };
                        if let Some(f) = top {
                            if !f.exit.is_empty() {
                                let t = self.ty(cx, e).unwrap_or_default();
                                if t == "()" {
                                    o.push_str(&format!("{};\n{}", x, f.exit));
                                } else {
                                    o.push_str(&format!("let __r = {};\n{}__r\n", x, f.exit));
                                }
                                return Ok(o);
                            }
                        }
                        o.push_str(&x);
                        o.push('\n');
                        return Ok(o);
                    }
                    let x = match e {
                        Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) if i + 1 == n && whole.closure && whole.tail => self.expr(e, &Cx { rb: 2, ..cx.clone() })?,
                        _ => self.expr(e, cx)?,
                    };
                    o.push_str(&x);
                    let blocky = matches!(e, Expr::If(_) | Expr::While(_) | Expr::ForLoop(_) | Expr::Loop(_) | Expr::Match(_) | Expr::Block(_)) && semi.is_none();
                    o.push_str(if blocky { "\n" } else { ";\n" });
                }
                Stmt::Macro(m) => {
                    let last = i + 1 == n && m.semi_token.is_none();
                    let e = Expr::Macro(ExprMacro { attrs: vec![], mac: m.mac.clone() });
                    let x = self.expr(&e, cx)?;
                    o.push_str(&x);
                    o.push_str(if last { "\n" } else { ";\n" });
                }
                Stmt::Item(Item::Fn(_)) | Stmt::Item(Item::Use(_)) => {}
                Stmt::Item(x) => return Err(format!("item {}", short(&ts(x)))),
            }
        }
        if let Some(f) = top {
            o.push_str(&f.exit);
        }
        Ok(o)
    }
    fn stmts_rest(&mut self, ss: &[Stmt], from: usize, cx: &Cx, top: Option<&FnC>) -> R<String> {
        // keep the numbering of `before` for the remaining statements
        let t2 = top.map(|f| {
            let mut f = f.clone();
            f.before = f.before.iter().filter(|(k, _)| **k >= from).map(|(k, v)| (k - from, v.clone())).collect();
            f
        });
        self.stmts(&ss[from..], cx, t2.as_ref())
    }
    /// Early exits inside an inlined closure or helper, turned into nested expressions.
    /// Only where the statements end the inlined body, so that their value is its value.
    fn cps(&mut self, s: &Stmt, rest: &[Stmt], cx: &Cx) -> R<Option<String>> {
        let off = cx.off();
        let mac = match s {
            Stmt::Macro(m) => Some(m.mac.clone()),
            Stmt::Expr(Expr::Macro(m), _) => Some(m.mac.clone()),
            _ => None,
        };
        if let Some(m) = mac {
            let n = m.path.segments.last().unwrap().ident.to_string();
            if n.starts_with("track_assert") {
                let (c, k) = self.track_cond(&m, &n, cx)?;
                let r = self.stmts(rest, cx, None)?;
                return Ok(Some(format!("if !({}) {{ Err({}) }} else {{\n{}}}\n", c, k, r)));
            }
            if n == "track_panic" {
                let k = self.track_kind(&self.macro_args(&m)?, 0, cx)?;
                return Ok(Some(format!("Err({})\n", k)));
            }
        }
        if let Stmt::Expr(Expr::Return(r), _) = s {
            let v = match &r.expr {
                Some(e) => self.stmts(&[Stmt::Expr((**e).clone(), None)], cx, None)?,
                None => "()".into(),
            };
            return Ok(Some(format!("{}\n", v)));
        }
        let last_value = rest.is_empty() && matches!(s, Stmt::Expr(_, None));
        // `let P = e?;` and `e?;`
        let whole = match s {
            Stmt::Local(l) => match l.init.as_ref().filter(|i| i.diverge.is_none()).map(|i| Self::unparen(&i.expr)) {
                Some(Expr::Try(t)) => Some((
                    t.clone(),
                    Some(match &l.pat {
                        Pat::Type(t) => (*t.pat).clone(),
                        p => p.clone(),
                    }),
                )),
                _ => None,
            },
            Stmt::Expr(e, Some(_)) => match Self::unparen(e) {
                Expr::Try(t) => Some((t.clone(), None)),
                _ => None,
            },
            _ => None,
        };
        if let Some((tr, p)) = whole {
            if !cx.tries.contains_key(&self.place(cx, &Expr::Try(tr.clone()))) && !exits_expr(&tr.expr).ret {
                let (pat, pr) = match &p {
                    Some(p) => self.pat(cx, p)?,
                    None => ("_".into(), String::new()),
                };
                let t = self.ty(cx, &tr.expr)?;
                let e = self.expr(&tr.expr, &off)?;
                let r = self.stmts(rest, cx, None)?;
                return Ok(Some(self.taken(&t, &e, &pat, &format!("{}{}", pr, r))));
            }
        }
        // a `?` evaluated first inside a larger expression
        let e = match s {
            Stmt::Local(l) => l.init.as_ref().map(|i| (*i.expr).clone()),
            Stmt::Expr(e, _) => Some(e.clone()),
            _ => None,
        };
        let e = match e {
            Some(e) => e,
            None => return Ok(None),
        };
        if let Some(tr) = first_try(&e) {
            let pl = self.place(cx, &Expr::Try(tr.clone()));
            if !cx.tries.contains_key(&pl) {
                let t = self.ty(cx, &tr.expr)?;
                let x = self.expr(&tr.expr, &off)?;
                let n = format!("__t{}", self.tmp());
                let mut c2 = cx.clone();
                c2.tries.insert(pl, n.clone());
                let all: Vec<Stmt> = std::iter::once(s.clone()).chain(rest.iter().cloned()).collect();
                let r = self.stmts(&all, &c2, None)?;
                return Ok(Some(self.taken(&t, &x, &n, &r)));
            }
        }
        if last_value {
            return Ok(None);
        }
        // `let P = e else { return .. };`
        if let Stmt::Local(l) = s {
            if let Some(LocalInit { expr, diverge: Some((_, d)), .. }) = &l.init {
                if exits_expr(expr).ret || !returns_expr(d) {
                    return Err("early exit in let else".into());
                }
                let x = self.scrutinee(expr, &[&l.pat], &off)?;
                let (p, pr) = self.pat(cx, &l.pat)?;
                let d = self.expr(d, cx)?;
                let r = self.stmts(rest, cx, None)?;
                return Ok(Some(format!("match {} {{ {} => {{\n{}{}}} _ => {{ {} }} }}\n", x, p, pr, r, d)));
            }
        }
        // the exits sit in the branches: what follows the statement goes into the branches
        let inner = match s {
            Stmt::Expr(Expr::If(i), _) => {
                let mut x = exits_block(&i.then_branch).ret;
                if let Some((_, e)) = &i.else_branch {
                    x |= exits_expr(e).ret;
                }
                x
            }
            Stmt::Expr(Expr::Match(m), _) => m.arms.iter().any(|a| exits_expr(&a.body).ret),
            Stmt::Expr(Expr::Block(b), _) => exits_block(&b.block).ret,
            Stmt::Local(l) => match l.init.as_ref().map(|i| Self::unparen(&i.expr)) {
                Some(Expr::If(i)) => exits_block(&i.then_branch).ret || i.else_branch.as_ref().map_or(false, |(_, e)| exits_expr(e).ret),
                Some(Expr::Match(m)) => m.arms.iter().any(|a| exits_expr(&a.body).ret),
                _ => false,
            },
            _ => false,
        };
        if !inner {
            return Ok(None);
        }
        let bind = match s {
            Stmt::Local(l) => Some(l.clone()),
            _ => None,
        };
        // what a branch becomes: itself when it returns, else itself followed by the rest
        let cont = |b: &Expr, names: &[String], used: &mut usize| -> R<Vec<Stmt>> {
            let body: Vec<Stmt> = match Self::unparen(b) {
                Expr::Block(b) if b.label.is_none() => b.block.stmts.clone(),
                e => vec![Stmt::Expr(e.clone(), None)],
            };
            if returns(&body) {
                return Ok(body);
            }
            *used += 1;
            let mut bound = names.to_vec();
            bound.extend(let_names(&body));
            if mentions(rest, &bound) {
                return Err("a name of a branch hides one used after it".into());
            }
            let mut v = body;
            match &bind {
                Some(l) => {
                    let val = match v.pop() {
                        Some(Stmt::Expr(e, None)) => e,
                        _ => return Err("branch without a value".into()),
                    };
                    let mut l = l.clone();
                    let i = l.init.as_mut().unwrap();
                    i.expr = Box::new(val);
                    v.push(Stmt::Local(l));
                }
                None => {
                    if let Some(Stmt::Expr(_, semi)) = v.last_mut() {
                        if semi.is_none() {
                            *semi = Some(Default::default());
                        }
                    }
                }
            }
            v.extend(rest.iter().cloned());
            Ok(v)
        };
        let mut used = 0;
        let ex = match s {
            Stmt::Local(l) => Self::unparen(&l.init.as_ref().unwrap().expr).clone(),
            Stmt::Expr(e, _) => e.clone(),
            _ => return Ok(None),
        };
        let out = match &ex {
            Expr::Block(b) if b.label.is_none() => {
                let v = cont(&ex, &[], &mut used)?;
                let _ = b;
                format!("{{\n{}}}\n", self.stmts(&v, cx, None)?)
            }
            Expr::If(i) => {
                let (head, names, pr) = if let Expr::Let(l) = Self::unparen(&i.cond) {
                    let t = self.ty(cx, &l.expr).unwrap_or_default();
                    if is_guard(&t) {
                        return Err("early exit while holding a lock".into());
                    }
                    let x = self.scrutinee(&l.expr, &[&l.pat], &off)?;
                    let (p, pr) = self.pat(cx, &l.pat)?;
                    (format!("if let {} = {}", p, x), pat_names(&l.pat), pr)
                } else {
                    if contains_let(&i.cond) {
                        return Err("let chain".into());
                    }
                    let c = self.expr(&i.cond, &off)?;
                    let c = if c.starts_with("match ") || c.starts_with('{') || c.starts_with("if ") { format!("({})", c) } else { c };
                    (format!("if {}", c), vec![], String::new())
                };
                let th = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                let v = cont(&th, &names, &mut used)?;
                let a = self.stmts(&v, cx, None)?;
                let el = match &i.else_branch {
                    Some((_, e)) => (**e).clone(),
                    None => Expr::Block(ExprBlock { attrs: vec![], label: None, block: Block { brace_token: Default::default(), stmts: vec![] } }),
                };
                let v = cont(&el, &[], &mut used)?;
                let b = self.stmts(&v, cx, None)?;
                format!("{} {{\n{}{}}} else {{\n{}}}\n", head, pr, a, b)
            }
            Expr::Match(m) => {
                let t = self.ty(cx, &m.expr).unwrap_or_default();
                if is_guard(&t) {
                    return Err("match on a lock".into());
                }
                let pats: Vec<&Pat> = m.arms.iter().map(|a| &a.pat).collect();
                let x = self.scrutinee(&m.expr, &pats, &off)?;
                let mut o = format!("match {} {{\n", x);
                for a in &m.arms {
                    let (p, pr) = self.pat(cx, &a.pat)?;
                    let g = match &a.guard {
                        Some(_) if !pr.is_empty() => return Err("guard with dereferencing pattern".into()),
                        Some((_, g)) => format!(" if {}", self.expr(g, &off)?),
                        None => String::new(),
                    };
                    let v = cont(&a.body, &pat_names(&a.pat), &mut used)?;
                    let b = self.stmts(&v, cx, None)?;
                    o.push_str(&format!("{}{} => {{\n{}{}}}\n", p, g, pr, b));
                }
                o.push_str("}\n");
                o
            }
            _ => return Ok(None),
        };
        if used > 1 && !copyable(rest) {
            return Err("early exit in more than one branch".into());
        }
        Ok(Some(out))
    }
    /// `match operand { Ok(pat) => rest, Err(e) => Err(e) }`, for a Result or an Option
    fn taken(&mut self, t: &str, operand: &str, pat: &str, rest: &str) -> String {
        if t.starts_with("std::option::Option<") {
            return format!("match {} {{ Some({}) => {{\n{}}} None => None }}\n", operand, pat, rest);
        }
        let k = self.tmp();
        format!("match {} {{ Ok({}) => {{\n{}}} Err(__e{}) => Err(__e{}) }}\n", operand, pat, rest, k, k)
    }
    fn pat_has_ref(&self, p: &Pat) -> bool {
        match p {
            Pat::Ident(i) => i.by_ref.is_some(),
            Pat::Tuple(t) => t.elems.iter().any(|x| self.pat_has_ref(x)),
            Pat::TupleStruct(t) => t.elems.iter().any(|x| self.pat_has_ref(x)),
            Pat::Struct(s) => s.fields.iter().any(|x| self.pat_has_ref(&x.pat)),
            Pat::Reference(_) => false,
            Pat::Paren(x) => self.pat_has_ref(&x.pat),
            Pat::Or(o) => o.cases.iter().any(|x| self.pat_has_ref(x)),
            _ => false,
        }
    }
    fn pat_has_ref_mut(&self, p: &Pat) -> bool {
        match p {
            Pat::Ident(i) => i.by_ref.is_some() && i.mutability.is_some(),
            Pat::Tuple(t) => t.elems.iter().any(|x| self.pat_has_ref_mut(x)),
            Pat::TupleStruct(t) => t.elems.iter().any(|x| self.pat_has_ref_mut(x)),
            Pat::Struct(s) => s.fields.iter().any(|x| self.pat_has_ref_mut(&x.pat)),
            Pat::Paren(x) => self.pat_has_ref_mut(&x.pat),
            Pat::Or(o) => o.cases.iter().any(|x| self.pat_has_ref_mut(x)),
            _ => false,
        }
    }
    /// `match *e { P(ref x) }` and `match place { P(ref x) }` become `match e/&place { P(x) }`
    fn as_ref_scrut(&mut self, _emitted: &str, e: &Expr, cx: &Cx) -> R<String> {
        self.scrut(e, cx, "&")
    }
    fn scrut(&mut self, e: &Expr, cx: &Cx, r: &str) -> R<String> {
        let e = Self::unparen(e);
        if let Expr::Unary(u) = e {
            if let UnOp::Deref(_) = u.op {
                return self.expr(&u.expr, cx);
            }
        }
        let t = self.ty(cx, e).unwrap_or_default();
        let x = self.expr(e, cx)?;
        if t.starts_with('&') {
            Ok(x)
        } else {
            Ok(format!("({}{})", r, x))
        }
    }
    fn scrutinee(&mut self, e: &Expr, pats: &[&Pat], cx: &Cx) -> R<String> {
        if pats.iter().any(|p| self.pat_has_ref_mut(p)) {
            self.scrut(e, cx, "&mut ")
        } else if pats.iter().any(|p| self.pat_has_ref(p)) {
            self.scrut(e, cx, "&")
        } else {
            self.expr(e, cx)
        }
    }

    // ------------------------------------------------------------------ expressions
    fn panic_(&mut self) -> String {
        let c = if self.fc.panics.is_empty() { "false".to_string() } else { self.fc.panics.clone() };
        format!("{{ proof {{ assert({}); }} diverge() }}", c)
    }
    pub fn expr(&mut self, e: &Expr, cx: &Cx) -> R<String> {
        if cx.tail && !matches!(e, Expr::Paren(_) | Expr::Group(_) | Expr::Block(_) | Expr::Unsafe(_) | Expr::If(_) | Expr::Match(_) | Expr::Return(_) | Expr::Macro(_)) {
            // `Ok(e?)` and `Some(e?)` as the value of the body
            if let Expr::Call(c) = e {
                let f = ts(&c.func);
                if (f == "Ok" || f == "Some") && c.args.len() == 1 {
                    if let Expr::Try(t) = Self::unparen(&c.args[0]) {
                        let x = self.expr(&t.expr, &cx.off())?;
                        let k = self.tmp();
                        return Ok(if f == "Ok" { format!("match {} {{ Ok(__t{}) => Ok(__t{}), Err(__e{}) => Err(__e{}) }}", x, k, k, k, k) } else { format!("match {} {{ Some(__t{}) => Some(__t{}), None => None }}", x, k, k) });
                    }
                }
            }
            return self.expr(e, &cx.off());
        }
        Ok(match e {
            Expr::Paren(p) => format!("({})", self.expr(&p.expr, cx)?),
            Expr::Group(p) => self.expr(&p.expr, cx)?,
            Expr::Lit(l) => self.lit(&l.lit)?,
            Expr::Path(_) => self.path(e, cx)?,
            Expr::Block(b) => {
                if b.label.is_some() {
                    return Err("labelled block".into());
                }
                self.block(&b.block, cx)?
            }
            Expr::Unsafe(b) => self.block(&b.block, cx)?,
            Expr::Tuple(t) => {
                let v: R<Vec<String>> = t.elems.iter().map(|x| self.expr(x, cx)).collect();
                let v = v?;
                if v.len() == 1 {
                    format!("({},)", v[0])
                } else {
                    format!("({})", v.join(", "))
                }
            }
            Expr::Array(a) => {
                let v: R<Vec<String>> = a.elems.iter().map(|x| self.expr(x, cx)).collect();
                format!("[{}]", v?.join(", "))
            }
            Expr::Reference(r) => {
                // the global gatherer: if it is the only one of its kind
                if let Expr::Path(_) = Self::unparen(&r.expr) {
                    if let Some(en) = self.path_entry(cx, Self::unparen(&r.expr)) {
                        if en.kind.starts_with("path:Static") {
                            let all: Vec<_> = self.k.fns.values().filter(|f| ts(&f.sig.output).replace(' ', "").ends_with("Mutex<Gatherer>") && f.sig.inputs.is_empty() && !f.public).map(|f| f.path.clone()).collect();
                            if all == vec![en.callee.clone()] {
                                return Ok("the_gatherer()".into());
                            }
                            return Err(format!("static {}", en.callee));
                        }
                    }
                }
                let x = self.expr(&r.expr, cx)?;
                if x.starts_with("str_from(") {
                    return Ok(x);
                }
                format!("(&{}{})", if r.mutability.is_some() { "mut " } else { "" }, x)
            }
            Expr::Unary(u) => self.unary(u, cx)?,
            Expr::Binary(b) => self.binary(b, cx)?,
            Expr::Assign(a) => format!("{} = {}", self.expr(&a.left, cx)?, self.expr(&a.right, cx)?),
            Expr::Cast(c) => self.cast(c, cx)?,
            Expr::Field(f) => {
                let b = self.expr(&f.base, cx)?;
                format!("{}.{}", b, ts(&f.member))
            }
            Expr::Index(i) => {
                if let Expr::MethodCall(m) = Self::unparen(&i.expr) {
                    if self.method_entry(cx, m)?.callee == "std::str::as_bytes" {
                        return Ok(format!("str_byte_at({}, {})", self.str_of(&m.receiver, cx)?, self.expr(&i.index, cx)?));
                    }
                }
                if let Expr::Range(r) = Self::unparen(&i.index) {
                    let (_, t) = strip_ref(&self.ty(cx, &i.expr)?);
                    if (t == "str" || t == "std::string::String") && r.end.is_none() {
                        if let Some(a) = &r.start {
                            return Ok(format!("str_from({}, {})", self.str_of(&i.expr, cx)?, self.expr(a, cx)?));
                        }
                    }
                    return Err("slicing".into());
                }
                format!("{}[{}]", self.expr(&i.expr, cx)?, self.expr(&i.index, cx)?)
            }
            Expr::Struct(s) => {
                if s.rest.is_some() {
                    return Err("struct update".into());
                }
                let mut v = vec![];
                for f in &s.fields {
                    v.push(format!("{}: {}", ts(&f.member), self.expr(&f.expr, cx)?));
                }
                format!("{} {{ {} }}", self.ctor_path(cx, &s.path), v.join(", "))
            }
            Expr::Try(t) => {
                if let Some(n) = cx.tries.get(&self.place(cx, e)) {
                    return Ok(n.clone());
                }
                if cx.closure {
                    return Err("? inside an inlined expression".into());
                }
                format!("{}?", self.expr(&t.expr, cx)?)
            }
            Expr::Return(r) => {
                if cx.closure && cx.tail {
                    return match &r.expr {
                        Some(e) => self.expr(e, cx),
                        None => Ok("()".into()),
                    };
                }
                if cx.closure && cx.rb == 1 && r.expr.is_none() {
                    return Ok("break".into());
                }
                if cx.closure {
                    return Err("return inside an inlined expression".into());
                }
                match &r.expr {
                    Some(e) => format!("return {}", self.expr(e, cx)?),
                    None => "return".into(),
                }
            }
            Expr::Break(b) => {
                if b.expr.is_some() || b.label.is_some() {
                    return Err("break with value or label".into());
                }
                "break".into()
            }
            Expr::Continue(c) => {
                if c.label.is_some() {
                    return Err("labelled continue".into());
                }
                "continue".into()
            }
            Expr::If(i) => self.if_(i, cx)?,
            Expr::Match(m) => self.match_(m, cx)?,
            Expr::While(w) => self.while_(w, cx)?,
            Expr::Loop(l) => {
                if let Some(w) = as_while(l) {
                    return self.while_(&w, cx);
                }
                let k = self.newloop("loop");
                let (pre, inv, body, end, post) = self.loopc(k, "", None);
                let b = self.stmts(&l.body.stmts, &cx.into_loop(), None)?;
                format!("{}loop\n{}{{\n{}{}{}}}\n{}", pre, inv, body, b, end, post)
            }
            Expr::ForLoop(f) => self.for_(f, cx)?,
            Expr::Call(c) => self.call(c, cx)?,
            Expr::MethodCall(m) => self.method(m, cx)?,
            Expr::Macro(m) => self.mac(&m.mac, cx)?,
            Expr::Closure(_) => return Err("closure value".into()),
            Expr::Range(_) => return Err("range value".into()),
            _ => return Err(format!("expression `{}`", short(&ts(e)))),
        })
    }
    fn unary(&mut self, u: &ExprUnary, cx: &Cx) -> R<String> {
        Ok(match u.op {
            UnOp::Not(_) => {
                let x = self.expr(&u.expr, cx)?;
                let x = if x.starts_with("match") || x.starts_with("if ") { format!("{{ {} }}", x) } else { x };
                format!("!({})", x)
            }
            UnOp::Deref(_) => {
                let t = self.ty(cx, &u.expr).unwrap_or_default();
                let (_, inner) = strip_ref(&t);
                if is_guard(&inner) {
                    return self.expr(&u.expr, cx);
                }
                // a lazily initialised constant
                if let Expr::Path(_) = Self::unparen(&u.expr) {
                    if let Some(en) = self.path_entry(cx, Self::unparen(&u.expr)) {
                        if en.kind.starts_with("path:Static") {
                            return if self.contracted(&en.callee) {
                                self.calls.insert(en.callee.clone());
                                Ok(format!("crate::{}({})", en.callee, wmark(&en.callee, true)))
                            } else {
                                Err(format!("static {}", en.callee))
                            };
                        }
                    }
                }
                format!("(*{})", self.expr(&u.expr, cx)?)
            }
            UnOp::Neg(_) => {
                let inner = Self::unparen(&u.expr);
                if let Expr::Lit(l) = inner {
                    if let Lit::Float(f) = &l.lit {
                        return Ok(f64_lit(-f.base10_parse::<f64>().map_err(|e| e.to_string())?));
                    }
                }
                let t = self.ty(cx, &u.expr)?;
                let (n, t) = strip_ref(&t);
                let x = self.expr(&u.expr, cx)?;
                if t == "f64" {
                    format!("F64::neg({})", stars(n, &x))
                } else {
                    format!("(-{})", x)
                }
            }
            _ => return Err("unary operator".into()),
        })
    }
    fn binary(&mut self, b: &ExprBinary, cx: &Cx) -> R<String> {
        let l = self.expr(&b.left, cx)?;
        let l = if l.starts_with("match ") || l.starts_with("if ") || l.starts_with('{') { format!("({})", l) } else { l };
        let r = self.expr(&b.right, cx)?;
        let op = ts(&b.op);
        if op == "&&" || op == "||" {
            return Ok(format!("({} {} {})", l, op, r));
        }
        let (nl, tl) = strip_ref(&self.ty(cx, &b.left)?);
        let (nr, tr) = strip_ref(&self.ty(cx, &b.right)?);
        self.binop(&op, (&l, nl, &tl), (&r, nr, &tr))
    }
    fn binop(&mut self, op: &str, (l, nl, tl): (&str, usize, &str), (r, nr, tr): (&str, usize, &str)) -> R<String> {
        let num = is_int(tl) || tl == "char" || tl == "bool";
        let cmp = ["<", "<=", ">", ">="].contains(&op);
        if tl == "f64" {
            let (a, b) = (stars(nl, l), stars(nr, r));
            let f = match op {
                "+" => "fadd_",
                "-" => "fsub_",
                "*" => "fmul_",
                "/" => "fdiv_",
                "<" => "lt_",
                "<=" => "le_",
                ">" => "gt_",
                ">=" => "ge_",
                "==" => "eq_f",
                "!=" => "ne_f",
                "+=" => return Ok(format!("{} = F64::fadd_({}, {})", stars(nl, l), stars(nl, l), b)),
                "-=" => return Ok(format!("{} = F64::fsub_({}, {})", stars(nl, l), stars(nl, l), b)),
                "*=" => return Ok(format!("{} = F64::fmul_({}, {})", stars(nl, l), stars(nl, l), b)),
                "/=" => return Ok(format!("{} = F64::fdiv_({}, {})", stars(nl, l), stars(nl, l), b)),
                _ => return Err(format!("operator {} on f64", op)),
            };
            return Ok(format!("F64::{}({}, {})", f, a, b));
        }
        if num {
            let (a, b) = (stars(nl, l), stars(nr, r));
            if tl == "u64" {
                match op {
                    "+" => return Ok(format!("u64_add({}, {})", a, b)),
                    "+=" => return Ok(format!("{} = u64_add({}, {})", a, a, b)),
                    _ => {}
                }
            }
            if op.ends_with('=') && !cmp && op != "==" && op != "!=" {
                let o = &op[..op.len() - 1];
                return Ok(format!("{} = {} {} {}", a, a, o, b));
            }
            return Ok(format!("({} {} {})", a, op, b));
        }
        let dur = tl == "std::time::Duration" || tl == "std::time::SystemTime" || tl == "std::time::Instant";
        if dur && (op == "+" || op == "-") {
            return Ok(format!("{}_{}({}, {})", tl.rsplit("::").next().unwrap().to_lowercase(), if op == "+" { "add" } else { "sub" }, stars(nl, l), stars(nr, r)));
        }
        let s = |t: &str| t == "str" || t == "std::string::String";
        if s(tl) && s(tr) && (op == "==" || op == "!=") {
            let a = self.str_ref(l, nl, tl);
            let b = self.str_ref(r, nr, tr);
            return Ok(format!("{}str_eq({}, {})", if op == "!=" { "!" } else { "" }, a, b));
        }
        let rf = |n: usize, x: &str| if n == 0 { format!("&{}", x) } else { stars(n - 1, x) };
        let (a, b) = (rf(nl, l), rf(nr, r));
        if tl != tr && !(tl.starts_with("std::option::Option<") || tl.starts_with('(') || tl.starts_with("std::vec::Vec") || same_mod_lifetimes(tl, tr)) {
            return Err(format!("{} {} {}", tl, op, tr));
        }
        match op {
            "==" => Ok(format!("p_eq({}, {})", a, b)),
            "!=" => Ok(format!("!p_eq({}, {})", a, b)),
            "<" => Ok(format!("ord_is_lt(p_cmp({}, {}))", a, b)),
            ">" => Ok(format!("ord_is_gt(p_cmp({}, {}))", a, b)),
            "<=" => Ok(format!("!ord_is_gt(p_cmp({}, {}))", a, b)),
            ">=" => Ok(format!("!ord_is_lt(p_cmp({}, {}))", a, b)),
            _ => Err(format!("operator {} on {}", op, tl)),
        }
    }
    fn str_ref(&self, x: &str, n: usize, t: &str) -> String {
        if t == "std::string::String" {
            format!("{}.as_str()", x)
        } else {
            stars(n.saturating_sub(1), x)
        }
    }
    /// an expression of type &str
    fn str_of(&mut self, e: &Expr, cx: &Cx) -> R<String> {
        let (n, t) = strip_ref(&self.ty(cx, e)?);
        let x = self.expr(e, cx)?;
        Ok(self.str_ref(&x, n, &t))
    }
    fn cast(&mut self, c: &ExprCast, cx: &Cx) -> R<String> {
        let x = self.expr(&c.expr, cx)?;
        let x = if x.starts_with('{') || x.starts_with("match ") { format!("({})", x) } else { x };
        let (n, from) = strip_ref(&self.ty(cx, &c.expr)?);
        if n > 0 {
            return Err("cast of a reference".into());
        }
        let to = ts(&c.ty).replace(' ', "");
        if to == "f64" {
            if is_int(&from) {
                return Ok(format!("F64::from_{}({})", from, x));
            }
            if from == "f64" {
                return Ok(x);
            }
        }
        if from == "f64" && is_int(&to) {
            return Ok(format!("F64::to_{}({})", to, x));
        }
        if is_int(&from) && is_int(&to) {
            if from == to {
                return Ok(x);
            }
            return Ok(format!("cast_{}_{}({})", from, to, x));
        }
        if from == "bool" && is_int(&to) {
            return Ok(format!("(if {} {{ 1{} }} else {{ 0{} }})", x, to, to));
        }
        if from == "u8" && to == "char" {
            return Ok(format!("u8_as_char({})", x));
        }
        if from == "char" && is_int(&to) {
            return Ok(format!("(({}) as {})", x, to));
        }
        Err(format!("cast {} as {}", from, to))
    }
    fn path(&mut self, e: &Expr, cx: &Cx) -> R<String> {
        let p = match e {
            Expr::Path(p) => p,
            _ => unreachable!(),
        };
        let en = self.path_entry(cx, e);
        if p.path.segments.len() == 1 {
            let n = p.path.segments[0].ident.to_string();
            if n == "self" {
                return Ok(cx.self_.clone());
            }
            if let Some(x) = &en {
                if x.kind == "local" {
                    if cx.hof.contains_key(&n) {
                        return Err(format!("closure parameter `{}` used as a value", n));
                    }
                    let (_, t) = strip_ref(&x.ty);
                    let nn = format!("{}{}", n, cx.suf);
                    if is_guard(&t) {
                        return Ok(format!("{}.v", nn));
                    }
                    return Ok(nn);
                }
            }
        }
        let en = match en {
            Some(x) => x,
            None => {
                let f = self.ctor_path(cx, &p.path);
                return Ok(f);
            }
        };
        let c = en.callee.as_str();
        if en.kind.starts_with("path:Const") {
            return Ok(match c {
                "std::f64::INFINITY" => f64_lit(f64::INFINITY),
                "std::f64::NEG_INFINITY" => f64_lit(f64::NEG_INFINITY),
                "std::f64::NAN" => f64_lit(f64::NAN),
                "std::f64::MAX" => f64_lit(f64::MAX),
                "std::f64::MIN" => f64_lit(f64::MIN),
                "std::f64::MIN_POSITIVE" => f64_lit(f64::MIN_POSITIVE),
                "std::f64::EPSILON" => f64_lit(f64::EPSILON),
                "std::time::UNIX_EPOCH" | "std::time::SystemTime::UNIX_EPOCH" => "UNIX_EPOCH()".into(),
                c if c.starts_with("std::") => {
                    let v: Vec<&str> = c.split("::").collect();
                    if v.len() == 3 && is_int(v[1]) {
                        format!("{}::{}", v[1], v[2])
                    } else if en.ty.starts_with("f64") {
                        return Err(format!("constant {}", c));
                    } else if is_int(&en.ty) {
                        format!("{}::{}", en.ty, v[v.len() - 1])
                    } else {
                        return Err(format!("constant {}", c));
                    }
                }
                "libc::_SC_CLK_TCK" => "2i32".into(),
                "libc::_SC_PAGESIZE" | "libc::_SC_PAGE_SIZE" => "30i32".into(),
                c if c.starts_with("libc::") => return Err(format!("constant {}", c)),
                c => format!("crate::{}", c),
            });
        }
        if en.kind.starts_with("path:AssocConst") {
            let last = c.rsplit("::").next().unwrap();
            if is_int(&en.ty) {
                return Ok(format!("{}::{}", en.ty, last));
            }
            return Ok(match (en.ty.as_str(), last) {
                ("f64", "INFINITY") => f64_lit(f64::INFINITY),
                ("f64", "NEG_INFINITY") => f64_lit(f64::NEG_INFINITY),
                ("f64", "NAN") => f64_lit(f64::NAN),
                ("f64", "MAX") => f64_lit(f64::MAX),
                ("f64", "MIN") => f64_lit(f64::MIN),
                ("f64", "EPSILON") => f64_lit(f64::EPSILON),
                ("std::time::SystemTime", "UNIX_EPOCH") => "UNIX_EPOCH()".into(),
                _ => return Err(format!("constant {}", c)),
            });
        }
        if en.kind.starts_with("path:Ctor") {
            return Ok(self.std_ctor(c.strip_prefix("std::prelude::v1::").unwrap_or(c)));
        }
        Err(format!("path {} ({})", c, en.kind))
    }
    fn if_(&mut self, i: &ExprIf, cx: &Cx) -> R<String> {
        let els = |me: &mut Self| -> R<String> {
            Ok(match &i.else_branch {
                Some((_, e)) => {
                    let x = me.expr(e, cx)?;
                    if x.starts_with('{') {
                        format!(" else {}", x)
                    } else {
                        format!(" else {{ {} }}", x)
                    }
                }
                None => String::new(),
            })
        };
        if let Expr::Let(l) = Self::unparen(&i.cond) {
            let t = self.ty(cx, &l.expr).unwrap_or_default();
            if (t.starts_with("std::result::Result<") && is_guard(&t)) {
                // the guard is dropped where the statement ends
                let (p, _) = match &*l.pat {
                    Pat::TupleStruct(ts) if ts.path.segments.last().unwrap().ident == "Ok" && ts.elems.len() == 1 => self.pat(cx, &ts.elems[0])?,
                    _ => return Err("pattern on a lock".into()),
                };
                let name = p.trim_start_matches("mut ").to_string();
                let (x, c) = (exits_block(&i.then_branch), cx.off());
                if (x.ret && !(cx.closure && cx.tail)) || x.brk || ts_block(&i.then_branch).contains("drop (") {
                    return Err("early exit while holding a lock".into());
                }
                let e = self.expr(&l.expr, &c)?;
                // where the block ends the inlined body, a `return` in it is its value
                let a = self.block(&i.then_branch, cx)?;
                let b = match &i.else_branch {
                    Some((_, e)) => self.expr(e, cx)?,
                    None => "{}".into(),
                };
                let k = self.tmp();
                return Ok(format!("match {} {{ Ok(mut {}) => {{\nlet __g{} = {};\n{}.unlock({});\n__g{} }} Err(_) => {} }}", e, name, k, a, name, wmark("!", true), k, b));
            }
            let s = self.scrutinee(&l.expr, &[&l.pat], &cx.off())?;
            let (p, pr) = self.pat(cx, &l.pat)?;
            let a = self.stmts(&i.then_branch.stmts, cx, None)?;
            let b = els(self)?;
            return Ok(format!("if let {} = {} {{\n{}{}}}{}", p, s, pr, a, b));
        }
        if ts(&i.cond).contains("let ") && contains_let(&i.cond) {
            return Err("let chain".into());
        }
        let c = self.expr(&i.cond, &cx.off())?;
        let a = self.block(&i.then_branch, cx)?;
        let b = els(self)?;
        let c = if c.starts_with("match ") || c.starts_with('{') || c.starts_with("if ") { format!("({})", c) } else { c };
        Ok(format!("if {} {}{}", c, a, b))
    }
    fn match_(&mut self, m: &ExprMatch, cx: &Cx) -> R<String> {
        let t = self.ty(cx, &m.expr).unwrap_or_default();
        if is_guard(&t) {
            return Err("match on a lock".into());
        }
        let pats: Vec<&Pat> = m.arms.iter().map(|a| &a.pat).collect();
        let s = self.scrutinee(&m.expr, &pats, &cx.off())?;
        let mut o = format!("match {} {{\n", s);
        for a in &m.arms {
            let (p, pr) = self.pat(cx, &a.pat)?;
            let g = match &a.guard {
                Some((_, g)) => {
                    if !pr.is_empty() {
                        return Err("guard with dereferencing pattern".into());
                    }
                    format!(" if {}", self.expr(g, &cx.off())?)
                }
                None => String::new(),
            };
            let unit = self.ty(cx, &a.body).map(|t| t == "()").unwrap_or(false);
            let b = self.expr(&a.body, cx)?;
            let b = if unit && !b.starts_with('{') { format!("{{ {}; }}", b) } else { b };
            o.push_str(&format!("{}{} => {{ {}{} }}\n", p, g, pr, b));
        }
        o.push('}');
        Ok(o)
    }
    // ------------------------------------------------------------------ loops
    /// the K-th call of a kind with the contract's proof text before and after it
    fn around(&mut self, a: &str, b: &str, v: &str, call: String) -> String {
        let k = *self.nat.entry(a.to_string()).and_modify(|n| *n += 1).or_insert(0);
        let g = |m: &BTreeMap<String, String>, w: &str| m.get(&format!("{} {}", w, k)).cloned().unwrap_or_default().replace("$v", v).replace("$u", "__u");
        let (p, q) = (g(&self.fc.at, a), g(&self.fc.at, b));
        format!("{{ let ghost __u = {}@;\n{}{}{}}}", v, p, call, q)
    }
    fn newloop(&mut self, kind: &str) -> usize {
        let k = self.nloop;
        self.nloop += 1;
        self.loops_seen.push(kind.to_string());
        k
    }
    /// (pre, clauses, body, end, post)
    fn loopc(&mut self, k: usize, def_inv: &str, def_dec: Option<&str>) -> (String, String, String, String, String) {
        let lc = self.fc.loops.get(&k).cloned().unwrap_or_default();
        let mut inv = lc.inv.trim_end().to_string();
        let has = |w: &str, s: &str| s.lines().any(|l| l.trim_start().starts_with(w));
        let d = if def_inv.is_empty() { String::new() } else { format!("{},\n", def_inv) };
        if has("invariant", &inv) {
            let mut done = false;
            inv = inv
                .lines()
                .map(|l| {
                    if !done && l.trim() == "invariant" {
                        done = true;
                        format!("invariant\n{}", d)
                    } else {
                        format!("{}\n", l)
                    }
                })
                .collect();
        } else if !inv.trim().is_empty() && !inv.trim_start().starts_with("ensures") && !inv.trim_start().starts_with("decreases") {
            inv = format!("invariant\n{}{}", d, inv);
        } else if !d.is_empty() {
            inv = format!("invariant\n{}{}", d, inv);
        }
        if !has("decreases", &inv) {
            if let Some(x) = def_dec {
                let t = inv.trim_end();
                let t = if t.is_empty() || t.ends_with(',') { t.to_string() } else { format!("{},", t) };
                inv = format!("{}\ndecreases {},", t, x);
            }
        }
        if !inv.is_empty() {
            inv.push('\n')
        }
        (lc.pre, inv, lc.body, lc.end, lc.post)
    }
    fn while_(&mut self, w: &ExprWhile, cx: &Cx) -> R<String> {
        if w.label.is_some() {
            return Err("labelled loop".into());
        }
        if let Expr::Let(l) = Self::unparen(&w.cond) {
            let k = self.newloop("while_let");
            let (pre, inv, body, end, post) = self.loopc(k, "", None);
            let s = self.scrutinee(&l.expr, &[&l.pat], &cx.off())?;
            let (p, pr) = self.pat(cx, &l.pat)?;
            let b = self.stmts(&w.body.stmts, &cx.into_loop(), None)?;
            return Ok(format!("{}loop\n{}{{\nmatch {} {{ {} => {{\n{}{}{}{}}} _ => {{ break; }} }}\n}};\n{}", pre, inv, s, p, body, pr, b, end, post));
        }
        let k = self.newloop("while");
        let c = self.expr(&w.cond, &cx.off())?;
        let (pre, inv, body, end, post) = self.loopc(k, "", None);
        let b = self.stmts(&w.body.stmts, &cx.into_loop(), None)?;
        let simple = !c.contains("match ") && !c.contains('{') && !c.contains('\u{1}');
        if simple {
            Ok(format!("{}while {}\n{}{{\n{}{}{}}};\n{}", pre, c, inv, body, b, end, post))
        } else {
            Ok(format!("{}loop\n{}{{\nlet __c{} = {};\nif !__c{} {{ break; }}\n{}{}{}}};\n{}", pre, inv, k, c, k, body, b, end, post))
        }
    }
    fn for_(&mut self, f: &ExprForLoop, cx: &Cx) -> R<String> {
        if f.label.is_some() {
            return Err("labelled loop".into());
        }
        let ch = self.chain(&f.expr, &cx.off())?;
        let (p, pr) = self.pat(cx, &f.pat)?;
        let nested = ch.ads.iter().any(|a| matches!(a, Ad::FlatMap(..)));
        if nested {
            let x = exits_block(&f.body);
            if x.brk || (cx.closure && x.ret) {
                return Err("break inside a flattened loop".into());
            }
        }
        let f2 = f.clone();
        let cx2 = cx.into_loop();
        self.emit_loop(ch, "", &mut |me, item| {
            let b = me.stmts(&f2.body.stmts, &cx2, None)?;
            Ok(format!("let {} = {};\n{}{}", p, item, pr, b))
        })
        .map(|(pre, code)| format!("{{\n{}{}}}", pre, code))
    }
    fn is_iter_ty(t: &str) -> bool {
        t.starts_with("std::iter::") || t.starts_with("std::slice::Iter") || t.starts_with("std::str::Chars") || t.starts_with("std::vec::IntoIter") || t.starts_with("std::collections::vec_deque::") || t.starts_with("std::ops::Range")
    }
    fn chain(&mut self, e: &Expr, cx: &Cx) -> R<Chain> {
        let e = Self::unparen(e);
        if let Expr::MethodCall(m) = e {
            let en = self.method_entry(cx, m)?;
            let a = |i: usize| m.args[i].clone();
            match en.callee.as_str() {
                "std::iter::Iterator::map" => {
                    let mut c = self.chain(&m.receiver, cx)?;
                    c.ads.push(Ad::Map(a(0), cx.clone()));
                    return Ok(c);
                }
                "std::iter::Iterator::filter" => {
                    let mut c = self.chain(&m.receiver, cx)?;
                    c.ads.push(Ad::Filter(a(0), cx.clone()));
                    return Ok(c);
                }
                "std::iter::Iterator::filter_map" => {
                    let mut c = self.chain(&m.receiver, cx)?;
                    c.ads.push(Ad::FilterMap(a(0), cx.clone()));
                    return Ok(c);
                }
                "std::iter::Iterator::flat_map" => {
                    let mut c = self.chain(&m.receiver, cx)?;
                    c.ads.push(Ad::FlatMap(a(0), cx.clone()));
                    return Ok(c);
                }
                "std::iter::Iterator::enumerate" => {
                    let mut c = self.chain(&m.receiver, cx)?;
                    c.ads.push(Ad::Enumerate);
                    return Ok(c);
                }
                "std::iter::Iterator::skip" => {
                    let mut c = self.chain(&m.receiver, cx)?;
                    let n = self.expr(&m.args[0], cx)?;
                    if !c.ads.is_empty() {
                        return Err("skip after another adaptor".into());
                    }
                    c.ads.push(Ad::Skip(n));
                    return Ok(c);
                }
                "std::iter::Iterator::cloned" | "std::iter::Iterator::copied" => {
                    let mut c = self.chain(&m.receiver, cx)?;
                    c.ads.push(Ad::Cloned);
                    return Ok(c);
                }
                "std::slice::iter" | "std::collections::VecDeque::iter" => {
                    return Ok(Chain { src: self.slice_source(&m.receiver, cx)?, ads: vec![] });
                }
                "std::slice::iter_mut" => {
                    let x = self.expr(&m.receiver, cx)?;
                    return Ok(Chain { src: Source::MutVec(x), ads: vec![] });
                }
                "std::str::chars" => {
                    let s = self.str_of(&m.receiver, cx)?;
                    return Ok(Chain { src: Source::Chars(s), ads: vec![] });
                }
                "std::str::lines" => {
                    let s = self.str_of(&m.receiver, cx)?;
                    return Ok(Chain { src: Source::Lines(s), ads: vec![] });
                }
                "std::iter::IntoIterator::into_iter" => return self.chain(&m.receiver, cx),
                _ => {}
            }
        }
        if let Expr::Range(r) = e {
            if let (Some(a), Some(b)) = (&r.start, &r.end) {
                let a = self.expr(a, cx)?;
                let b = self.expr(b, cx)?;
                let src = if matches!(r.limits, RangeLimits::HalfOpen(_)) { Source::Range(a, b) } else { Source::RangeIncl(a, b) };
                return Ok(Chain { src, ads: vec![] });
            }
            return Err("open range".into());
        }
        if let Expr::Reference(r) = e {
            let t = self.ty(cx, &r.expr)?;
            let (_, tt) = strip_ref(&t);
            if tt.starts_with("std::vec::Vec<") || tt.starts_with('[') || tt.contains("VecDeque<") || is_guard(&tt) {
                if r.mutability.is_some() {
                    let x = self.expr(&r.expr, cx)?;
                    return Ok(Chain { src: Source::MutVec(x), ads: vec![] });
                }
                return Ok(Chain { src: self.slice_source(&r.expr, cx)?, ads: vec![] });
            }
        }
        let t = self.ty(cx, e)?;
        let (n, tt) = strip_ref(&t);
        if n > 0 && (tt.starts_with("std::vec::Vec<") || tt.starts_with('[')) {
            if t.starts_with("&mut") {
                let x = self.expr(e, cx)?;
                return Ok(Chain { src: Source::MutVec(x), ads: vec![] });
            }
            return Ok(Chain { src: self.slice_source(e, cx)?, ads: vec![] });
        }
        if n == 0 && (tt.starts_with("std::vec::Vec<") || self.generic_iter(cx, &tt)) {
            let x = self.expr(e, cx)?;
            return Ok(Chain { src: Source::Owned(x), ads: vec![] });
        }
        let base = norm_ty(&tt);
        if let Some(f) = self.k.fns.get(&format!("{}::next", base)) {
            if f.trait_.as_deref() == Some("Iterator") {
                let x = self.expr(e, cx)?;
                return Ok(Chain { src: Source::User(x, base, n > 0), ads: vec![] });
            }
        }
        if tt == "std::iter::Once" || tt.starts_with("<C as collect::Collect>::Metrics") {
            let x = self.expr(e, cx)?;
            return Ok(Chain { src: Source::Owned(format!("{}.into_vec()", x)), ads: vec![] });
        }
        Err(format!("iteration over `{}` of type {}", short(&ts(e)), t))
    }
    fn generic_iter(&self, cx: &Cx, t: &str) -> bool {
        cx.ty_params.get(t).map_or(false, |s| s.starts_with("Vec<"))
    }
    fn slice_source(&mut self, e: &Expr, cx: &Cx) -> R<Source> {
        let (n, t) = strip_ref(&self.ty(cx, e)?);
        let x = self.expr(e, cx)?;
        let el = type_args(&t).first().cloned().unwrap_or_else(|| t.trim_start_matches('[').trim_end_matches(']').to_string());
        if t.contains("Arc<std::vec::Vec<") {
            return Ok(Source::Slice(format!("{}.as_slice()", x), el));
        }
        if t.contains("VecDeque<") {
            return Ok(Source::Slice(format!("{}.as_slice_()", x), el));
        }
        if t.starts_with("std::vec::Vec<") {
            return Ok(Source::Slice(format!("{}.as_slice()", x), el));
        }
        if t.starts_with('[') {
            return Ok(Source::Slice(if n == 0 { format!("&{}", x) } else { stars(n - 1, &x) }, el));
        }
        Err(format!("slice of {}", t))
    }
    /// Emits the canonical loop.  Returns (declarations to put before, loop code).
    fn emit_loop(&mut self, ch: Chain, extra_cond: &str, sink: &mut dyn FnMut(&mut Self, String) -> R<String>) -> R<(String, String)> {
        let kind = match &ch.src {
            Source::Slice(..) => "slice",
            Source::Owned(_) => "owned",
            Source::MutVec(_) => "mut",
            Source::Chars(_) => "chars",
            Source::Lines(_) => "lines",
            Source::Range(..) | Source::RangeIncl(..) => "range",
            Source::User(..) => "user",
        };
        let k = self.newloop(kind);
        let shape = ch.ads.iter().map(|a| match a {
            Ad::Map(..) => "map".to_string(),
            Ad::Filter(..) => "filter".into(),
            Ad::FilterMap(..) => "filter_map".into(),
            Ad::FlatMap(..) => "flat_map".into(),
            Ad::Enumerate => "enumerate".into(),
            Ad::Skip(n) => format!("skip({})", n),
            Ad::Cloned => "cloned".into(),
        }).fold(kind.to_string(), |a, b| a + "." + &b);
        self.shapes.insert(k, shape);
        let (s, i, x) = (format!("__s{}", k), format!("__i{}", k), format!("__x{}", k));
        let mut pre = String::new();
        let mut skip = None;
        for a in &ch.ads {
            if let Ad::Skip(n) = a {
                skip = Some(n.clone())
            }
        }
        if skip.is_some() && !matches!(ch.src, Source::Slice(..) | Source::Chars(_) | Source::Lines(_)) {
            return Err("skip on this iterator".into());
        }
        let extra = if extra_cond.is_empty() { String::new() } else { format!(" && {}", extra_cond) };
        let (head, def_inv, def_dec): (String, String, Option<String>);
        let start = match &skip {
            Some(n) => format!("skip_start({}, {}.len())", n, s),
            None => "0".into(),
        };
        let cond;
        let mut user = false;
        match &ch.src {
            Source::Slice(e, _) => {
                pre.push_str(&format!("let {} = {};\nlet mut {}: usize = {};\n", s, e, i, start));
                cond = format!("{} < {}.len()", i, s);
                head = format!("let {} = &{}[{}];\n{} = {} + 1;\n", x, s, i, i, i);
                def_inv = format!("{} <= {}@.len()", i, s);
                def_dec = Some(format!("{}@.len() - {}", s, i));
            }
            Source::Chars(e) => {
                pre.push_str(&format!("let {} = str_chars({});\nlet mut {}: usize = {};\n", s, e, i, start));
                cond = format!("{} < {}.len()", i, s);
                head = format!("let {} = {}[{}];\n{} = {} + 1;\n", x, s, i, i, i);
                def_inv = format!("{} <= {}@.len()", i, s);
                def_dec = Some(format!("{}@.len() - {}", s, i));
            }
            Source::Lines(e) => {
                pre.push_str(&format!("let {} = str_lines({});\nlet mut {}: usize = {};\n", s, e, i, start));
                cond = format!("{} < {}.len()", i, s);
                head = format!("let {} = {}[{}];\n{} = {} + 1;\n", x, s, i, i, i);
                def_inv = format!("{} <= {}@.len()", i, s);
                def_dec = Some(format!("{}@.len() - {}", s, i));
            }
            Source::Owned(e) => {
                pre.push_str(&format!("let mut {} = OwnedIter::new({});\nlet ghost __g{} = {}.seq();\n", s, e, k, s));
                cond = format!("{}.more()", s);
                head = format!("let {} = {}.take();\n", x, s);
                def_inv = format!("{}.wf(),\n{}.seq() == __g{}", s, s, k);
                def_dec = Some(format!("{}.seq().len() - {}.pos()", s, s));
            }
            Source::MutVec(e) => {
                pre.push_str(&format!("let mut {}: usize = 0;\nlet ghost __g{} = {}@;\n", i, k, e));
                cond = format!("{} < {}.len()", i, e);
                head = format!("let {} = &mut {}[{}];\n{} = {} + 1;\n", x, e, i, i, i);
                def_inv = format!("{} <= {}.len(),\n{}.len() == __g{}.len()", i, e, e, k);
                def_dec = Some(format!("{}.len() - {}", e, i));
            }
            Source::Range(a, b) => {
                pre.push_str(&format!("let __e{} = {};\nlet mut {} = {};\n", k, b, i, a));
                cond = format!("{} < __e{}", i, k);
                head = format!("let {} = {};\n{} = {} + 1;\n", x, i, i, i);
                def_inv = String::new();
                def_dec = Some(format!("__e{} - {}", k, i));
            }
            Source::RangeIncl(..) => return Err("inclusive range loop".into()),
            Source::User(e, base, by_ref) => {
                user = true;
                if *by_ref {
                    pre.push_str(&format!("let {} = {};\n", s, e));
                } else {
                    pre.push_str(&format!("let mut {} = {};\n", s, e));
                }
                let callee = format!("{}::next", base);
                let c = if self.contracted(&callee) {
                    self.calls.insert(callee.clone());
                    format!("{}.next({})", s, wmark(&callee, true))
                } else {
                    return Err(format!("{} has no contract", callee));
                };
                cond = String::new();
                head = format!("let {} = match {} {{ Some(__v) => __v, None => {{ break; }} }};\n", x, c);
                def_inv = String::new();
                def_dec = None;
            }
        }
        let mut ads = ch.ads;
        ads.retain(|a| !matches!(a, Ad::Skip(_)));
        if ads.iter().any(|a| matches!(a, Ad::Enumerate)) {
            pre.push_str(&format!("let mut __n{}: usize = 0;\n", k));
        }
        let inner = self.apply(&mut ads.into_iter().collect::<Vec<_>>(), k, x, sink)?;
        let (cpre, inv, body, end, post) = self.loopc(k, &def_inv, def_dec.as_deref());
        pre.push_str(&cpre);
        let code = if user {
            let brk = if extra_cond.is_empty() { String::new() } else { format!("if !({}) {{ break; }}\n", extra_cond) };
            format!("loop\n{}{{\n{}{}{}{}{}}}\n{}", inv, brk, head, body, inner, end, post)
        } else {
            format!("while {}{}\n{}{{\n{}{}{}{}}}\n{}", cond, extra, inv, head, body, inner, end, post)
        };
        Ok((pre, code))
    }
    fn apply(&mut self, ads: &mut Vec<Ad>, k: usize, item: String, sink: &mut dyn FnMut(&mut Self, String) -> R<String>) -> R<String> {
        if ads.is_empty() {
            let s = sink(self, item)?;
            return Ok(ensure_semi(s));
        }
        let a = ads.remove(0);
        let n = self.tmp();
        match a {
            Ad::Map(c, cx) => {
                let v = self.inline_closure(&c, &[item], &cx)?;
                let rest = self.apply(ads, k, format!("__y{}", n), sink)?;
                Ok(format!("let __y{} = {};\n{}", n, v, rest))
            }
            Ad::Filter(c, cx) => {
                let v = self.inline_closure(&c, &[format!("&__f{}", n)], &cx)?;
                let rest = self.apply(ads, k, format!("__f{}", n), sink)?;
                Ok(format!("let __f{} = {};\nlet __p{} = {};\nif __p{} {{\n{}}}\n", n, item, n, v, n, rest))
            }
            Ad::FilterMap(c, cx) => {
                let v = self.inline_closure(&c, &[item], &cx)?;
                let rest = self.apply(ads, k, format!("__f{}", n), sink)?;
                Ok(format!("let __q{} = {};\nmatch __q{} {{ Some(__f{}) => {{\n{}}}, None => {{}} }}\n", n, v, n, n, rest))
            }
            Ad::Cloned => {
                let rest = self.apply(ads, k, format!("__y{}", n), sink)?;
                Ok(format!("let __y{} = clone_val({});\n{}", n, item, rest))
            }
            Ad::Enumerate => {
                let rest = self.apply(ads, k, format!("__y{}", n), sink)?;
                Ok(format!("let __y{} = (__n{}, {});\n__n{} = __n{} + 1;\n{}", n, k, item, k, k, rest))
            }
            Ad::FlatMap(c, cx) => {
                let cl = match Self::unparen(&c) {
                    Expr::Closure(c) => c.clone(),
                    _ => return Err("flat_map of a function".into()),
                };
                let (p, pr) = self.pat(&cx, &cl.inputs[0])?;
                let inner = self.chain(&cl.body, &cx)?;
                if !ads.is_empty() && ads.iter().any(|a| matches!(a, Ad::Enumerate)) {
                    return Err("enumerate after flat_map".into());
                }
                // remaining adaptors apply to the inner items
                let mut inner = inner;
                inner.ads.extend(ads.drain(..));
                let (ipre, code) = self.emit_loop(inner, "", sink)?;
                Ok(format!("let {} = {};\n{}{{\n{}{}}}\n", p, item, pr, ipre, code))
            }
            Ad::Skip(_) => unreachable!(),
        }
    }
    // ------------------------------------------------------------------ closures
    /// value of `c(args)` as an expression, with the closure's body inlined
    fn inline_closure(&mut self, c: &Expr, args: &[String], cx: &Cx) -> R<String> {
        let c = Self::unparen(c);
        match c {
            Expr::Closure(cl) => {
                if cl.inputs.len() != args.len() {
                    return Err("closure arity".into());
                }
                let mut o = String::from("{\n");
                for (p, a) in cl.inputs.iter().zip(args) {
                    let (ps, pr) = self.pat(cx, p)?;
                    if ps != "_" {
                        o.push_str(&format!("let {} = {};\n{}", ps, a, pr));
                    }
                }
                let mut c2 = cx.clone();
                c2.closure = true;
                c2.tail = true;
                c2.rb = 0;
                let b = match Self::unparen(&cl.body) {
                    Expr::Block(b) => self.stmts(&b.block.stmts, &c2, None)?,
                    e => self.stmts(&[Stmt::Expr(e.clone(), None)], &c2, None)?,
                };
                o.push_str(&b);
                o.push('}');
                Ok(o)
            }
            Expr::Path(p) => {
                if p.path.segments.len() == 1 {
                    if let Some((e, c2)) = cx.hof.get(&p.path.segments[0].ident.to_string()) {
                        let (e, c2) = (e.clone(), (**c2).clone());
                        return self.inline_closure(&e, args, &c2);
                    }
                }
                let en = self.path_entry(cx, c).ok_or("function value")?;
                let cal = en.callee.clone();
                if en.kind.starts_with("path:Ctor") {
                    return Ok(format!("{}({})", self.path(c, cx)?, args.join(", ")));
                }
                if cal == "std::convert::AsRef::as_ref" || cal == "std::string::String::as_str" || cal == "std::ops::Deref::deref" {
                    if en.selfty.contains("std::string::String") {
                        return Ok(format!("{}.as_str()", args[0]));
                    }
                }
                if cal == "std::string::ToString::to_string" || cal == "std::borrow::ToOwned::to_owned" || cal == "std::convert::From::from" {
                    if en.selfty == "str" || en.selfty == "&str" || en.selfty == "std::string::String" {
                        return Ok(format!("str_to_string({})", args[0]));
                    }
                }
                if cal == "std::clone::Clone::clone" {
                    return Ok(format!("clone_val({})", args[0]));
                }
                if self.contracted(&cal) {
                    self.calls.insert(cal.clone());
                    return Ok(format!("crate::{}({}{})", cal, args.join(", "), wmark(&cal, args.is_empty())));
                }
                Err(format!("function value {}", cal))
            }
            _ => Err("closure expression".into()),
        }
    }
    pub fn contracted(&self, p: &str) -> bool {
        self.c.fns.get(p).map_or(false, |f| !f.inline) && (self.k.fns.contains_key(p))
    }
    /// a crate function which has no contract (or takes a closure), inlined at the call
    fn inline_fn(&mut self, path: &str, recv: Option<String>, args: &[Expr], cx: &Cx) -> R<String> {
        let fi = self.k.fns.get(path).ok_or_else(|| format!("unknown function {}", path))?;
        if cx.stack.iter().any(|s| s == path) || cx.depth > 6 {
            return Err(format!("recursive inlining of {}", path));
        }
        self.inlined.insert(path.to_string());
        let n = self.tmp();
        let suf = format!("__{}", n);
        let mut o = String::from("{\n");
        let mut c2 = Cx {
            m: fi.module,
            suf: suf.clone(),
            self_: format!("__self{}", n),
            self_ty: fi.self_ty.clone(),
            assoc: fi.assoc.clone(),
            hof: HashMap::new(),
            closure: true,
            tail: true,
            rb: 0,
            tries: HashMap::new(),
            depth: cx.depth + 1,
            stack: cx.stack.iter().cloned().chain([path.to_string()]).collect(),
            ty_params: HashMap::new(),
        };
        let mut ai = 0;
        let mut cl_params = vec![];
        for g in &fi.generics {
            for p in g.type_params() {
                let b: String = p.bounds.iter().map(|b| ts(b)).collect();
                let w: String = g.where_clause.as_ref().map(|w| ts(w)).unwrap_or_default();
                if b.contains("Fn") || w.contains(&format!("{} : Fn", p.ident)) {
                    cl_params.push(p.ident.to_string());
                }
            }
        }
        for p in &fi.sig.inputs {
            match p {
                FnArg::Receiver(_) => {
                    o.push_str(&format!("let __self{} = {};\n", n, recv.clone().ok_or("receiver")?));
                }
                FnArg::Typed(t) => {
                    let a = args.get(ai).ok_or("argument")?;
                    ai += 1;
                    let tys = ts(&t.ty);
                    if cl_params.contains(&tys) || tys.starts_with("impl Fn") {
                        let id = match &*t.pat {
                            Pat::Ident(i) => i.ident.to_string(),
                            _ => return Err("closure parameter".into()),
                        };
                        c2.hof.insert(id, (a.clone(), Box::new(cx.clone())));
                        continue;
                    }
                    let x = self.expr(a, cx)?;
                    let (ps, pr) = self.pat(&c2, &t.pat)?;
                    let ann = self.map_ty(&Cx { m: fi.module, ..c2.clone() }, &t.ty).map(|s| if s.contains('\'') { String::new() } else { format!(": {}", s) }).unwrap_or_default();
                    o.push_str(&format!("let {}{} = {};\n{}", ps, ann, x, pr));
                }
            }
        }
        let b = self.stmts(&fi.block.stmts, &c2, None)?;
        o.push_str(&b);
        o.push('}');
        Ok(o)
    }
    fn has_closure_param(&self, path: &str) -> bool {
        self.k.fns.get(path).map_or(false, |f| f.sig.inputs.iter().any(|a| if let FnArg::Typed(t) = a { fn_param(f, &ts(&t.ty)) } else { false }))
    }
    // ------------------------------------------------------------------ calls
    fn args(&mut self, a: &punctuated::Punctuated<Expr, Token![,]>, cx: &Cx) -> R<Vec<String>> {
        a.iter().map(|x| self.expr(x, cx)).collect()
    }
    fn call(&mut self, c: &ExprCall, cx: &Cx) -> R<String> {
        let f = Self::unparen(&c.func);
        // calling a closure parameter
        if let Expr::Path(p) = f {
            if p.path.segments.len() == 1 {
                let n = p.path.segments[0].ident.to_string();
                if let Some((e, c2)) = cx.hof.get(&n) {
                    let (e, c2) = (e.clone(), (**c2).clone());
                    let a = self.args(&c.args, cx)?;
                    return self.inline_closure(&e, &a, &c2);
                }
                if cx.ty_params.get(&format!("fn:{}", n)).is_some() {
                    if !c.args.is_empty() {
                        return Err("work with arguments".into());
                    }
                    return Ok(format!("{}{}.run({})", n, cx.suf, wmark("!", true)));
                }
            }
        }
        if let Expr::Closure(_) = f {
            let a = self.args(&c.args, cx)?;
            return self.inline_closure(f, &a, cx);
        }
        if let Expr::Field(_) = f {
            let t = self.ty(cx, f)?;
            if t.contains("dyn") && t.contains("FnMut") {
                let a = self.args(&c.args, cx)?;
                return Ok(format!("{}.call({}{})", self.expr(f, cx)?, a.join(", "), wmark("!", a.is_empty())));
            }
        }
        if let Expr::Path(p) = f {
            if p.qself.is_some() {
                return Err("qualified path call".into());
            }
        }
        let en = self.path_entry(cx, f).ok_or_else(|| format!("call of `{}`", short(&ts(f))))?;
        let cal = en.callee.clone();
        if en.kind.starts_with("path:Ctor") {
            if cal == "registry::Collector" && matches!(Self::unparen(&c.args[0]), Expr::Call(_)) {
                if let Expr::Call(b) = Self::unparen(&c.args[0]) {
                    if self.path_entry(cx, &b.func).map_or(false, |e| e.callee == "std::boxed::Box::new") {
                        return self.boxed_collector(&b.args[0], cx);
                    }
                }
            }
            let a = self.args(&c.args, cx)?;
            let p = self.path(f, cx)?;
            return Ok(format!("{}({})", p, a.join(", ")));
        }
        if let Some(fi) = self.k.fns.get(&cal) {
            let is_method = matches!(fi.sig.inputs.first(), Some(FnArg::Receiver(_)));
            if self.contracted(&cal) && !self.has_closure_param(&cal) {
                self.calls.insert(cal.clone());
                let a = self.args(&c.args, cx)?;
                return Ok(format!("crate::{}({}{})", cal, a.join(", "), wmark(&cal, a.is_empty())));
            }
            if is_method {
                return Err(format!("path call of method {}", cal));
            }
            let a: Vec<Expr> = c.args.iter().cloned().collect();
            return self.inline_fn(&cal, None, &a, cx);
        }
        let a = self.args(&c.args, cx)?;
        let w = wmark("!", a.is_empty());
        Ok(match cal.as_str() {
            "std::vec::Vec::new" => "Vec::new()".into(),
            "std::vec::Vec::with_capacity" => format!("Vec::with_capacity({})", a[0]),
            "std::string::String::new" => "string_new()".into(),
            "std::string::String::with_capacity" => "string_new()".into(),
            "std::collections::VecDeque::new" | "std::collections::VecDeque::with_capacity" => {
                let t = self.ty(cx, &Expr::Call(c.clone())).and_then(|t| self.map_rty(&t)).unwrap_or_default();
                match t.strip_prefix("VDeque<") {
                    Some(x) => format!("VDeque::<{}::new()", x),
                    None => "VDeque::new()".into(),
                }
            }
            "std::sync::Arc::new" => format!("Arc::new({})", a[0]),
            "std::sync::Arc::clone" | "std::clone::Clone::clone" => format!("clone_val({})", a[0]),
            "std::sync::Arc::downgrade" => format!("StdWeak::downgrade({})", a[0]),
            "std::sync::Mutex::new" => {
                let t = self.ty(cx, &c.args[0])?;
                if t == "registry::Gatherer" { format!("StdGMutex::new({})", a[0]) } else { format!("StdMutex::new({}{})", a[0], w) }
            }
            "atomic_immut::AtomicImmut::new" => format!("StdAtomicImmut::new({}{})", a[0], w),
            "std::sync::atomic::Atomic::new" | "std::sync::atomic::AtomicU64::new" => {
                let t = self.ty(cx, &Expr::Call(c.clone()))?;
                format!("{}::new({}{})", self.std_atomic(&t)?, a[0], w)
            }
            "std::time::SystemTime::now" => format!("SystemTime::now({})", w),
            "std::time::Instant::now" => format!("Instant::now({})", w),
            "libc::sysconf" => format!("os_sysconf({})", a[0]),
            "procinfo::pid::limits_self" => format!("os_limits({})", w),
            "procinfo::pid::stat_self" => format!("os_stat({})", w),
            "std::fs::read_dir" => {
                let e = Self::unparen(&c.args[0]);
                let t = self.ty(cx, e)?;
                if t != "&str" {
                    return Err(format!("read_dir of {}", t));
                }
                format!("os_read_dir({}{})", a[0], w)
            }
            "std::fs::read_to_string" => {
                let e = Self::unparen(&c.args[0]);
                let t = self.ty(cx, e)?;
                if t != "&str" {
                    return Err(format!("read_to_string of {}", t));
                }
                format!("os_read_text({}{})", a[0], w)
            }
            "std::sync::mpsc::channel" => format!("std_channel({})", w),
            "std::f64::from_bits" => format!("F64::from_bits({})", a[0]),
            "std::f64::max" => format!("F64::fmax_({}, {})", a[0], a[1]),
            "std::f64::min" => format!("F64::fmin_({}, {})", a[0], a[1]),
            "std::cmp::min" => format!("p_min({}, {})", a[0], a[1]),
            "std::cmp::max" => format!("p_max({}, {})", a[0], a[1]),
            "std::iter::once" => format!("OnceIter::new({})", a[0]),
            "std::mem::drop" => return Err("drop".into()),
            "std::mem::replace" => format!("mem_replace({}, {})", a[0], a[1]),
            "std::mem::take" => format!("mem_take_vec({})", a[0]),
            "std::mem::transmute" | "std::intrinsics::transmute" => {
                let t = self.ty(cx, &c.args[0])?;
                if t.starts_with("std::slice::Iter<") {
                    format!("transmute_iter({})", a[0])
                } else {
                    return Err(format!("transmute of {}", t));
                }
            }
            "std::time::Duration::new" => format!("Duration::new_({}, {})", a[0], a[1]),
            "std::time::Duration::from_secs" => format!("Duration::from_secs_({})", a[0]),
            "std::convert::From::from" | "std::convert::Into::into" => {
                let to = self.ty(cx, &Expr::Call(c.clone()))?;
                let from = self.ty(cx, &c.args[0])?;
                return self.convert(&from, &to, &a[0]);
            }
            _ => return Err(format!("call of {}", cal)),
        })
    }
    fn std_atomic(&self, t: &str) -> R<&'static str> {
        if t.contains("Atomic<u64>") || t.ends_with("AtomicU64") {
            Ok("StdAtomicU64")
        } else if t.contains("Atomic<i64>") || t.ends_with("AtomicI64") {
            Ok("StdAtomicI64")
        } else {
            Err(format!("atomic {}", t))
        }
    }
    fn convert(&mut self, from: &str, to: &str, x: &str) -> R<String> {
        if from == to {
            return Ok(x.to_string());
        }
        if to == "f64" && is_int(from) {
            return Ok(format!("F64::from_{}({})", from, x));
        }
        if is_int(from) && is_int(to) {
            return Ok(format!("cast_{}_{}({})", from, to, x));
        }
        if from == "bool" && is_int(to) {
            return Ok(format!("(if {} {{ 1{} }} else {{ 0{} }})", x, to, to));
        }
        if let Ok(a) = self.std_atomic(to) {
            return Ok(format!("{}::new({}{})", a, x, wmark("!", false)));
        }
        if to == "std::string::String" && (from == "&str") {
            return Ok(format!("str_to_string({})", x));
        }
        let nm = from.rsplit("::").next().unwrap();
        let p = format!("{}::from_{}", norm_ty(to), nm);
        if self.contracted(&p) {
            self.calls.insert(p.clone());
            return Ok(format!("crate::{}({}{})", p, x, wmark(&p, false)));
        }
        Err(format!("conversion {} -> {}", from, to))
    }
    fn boxed_collector(&mut self, e: &Expr, cx: &Cx) -> R<String> {
        // the closure stored in a Collector: lifted to a function of its own, with its own contract
        let (e, c2) = match Self::unparen(e) {
            Expr::Path(p) if p.path.segments.len() == 1 => {
                let n = p.path.segments[0].ident.to_string();
                let (e, c) = cx.hof.get(&n).ok_or("boxed value")?.clone();
                (e, *c)
            }
            x => (x.clone(), cx.clone()),
        };
        let cl = match Self::unparen(&e) {
            Expr::Closure(c) => c.clone(),
            _ => return Err("boxed value".into()),
        };
        let caps = self.captures(&cl, &c2)?;
        if caps.len() != 1 {
            return Err("captures of a collector".into());
        }
        let k = self.nclo;
        self.nclo += 1;
        let name = format!("{}__closure{}", self.fname.rsplit("::").next().unwrap(), k);
        let cc = self.fc.closures.get(&k).cloned().ok_or("closure without contract")?;
        let saved = (self.nloop, std::mem::take(&mut self.loops_seen));
        let (p, pr) = self.pat(&c2, &cl.inputs[0])?;
        let mut c3 = c2.clone();
        c3.closure = true;
        c3.tail = true;
        c3.rb = 0;
        let sv = std::mem::replace(&mut self.fc.panics, "false".into());
        let b = match Self::unparen(&cl.body) {
            Expr::Block(b) => self.stmts(&b.block.stmts, &c3, None)?,
            e => self.expr(e, &c3)?,
        };
        self.fc.panics = sv;
        let _ = saved;
        let (cap, _) = &caps[0];
        self.helpers.push(format!(
            "#[verifier::loop_isolation(false)]\npub fn {}({}: &mut UserCollector, {}: &mut Vec<crate::metric::Metric>{}) -> (r: bool)\n{}\n{{\n{}{}}}\n",
            name,
            cap,
            p,
            wmark("!", false),
            cc.entry,
            pr,
            b
        ));
        Ok(format!("crate::registry::Collector(DynCollector::of({}))", cap))
    }
    /// locals of the surrounding function used inside a closure, with their types
    fn captures(&self, cl: &ExprClosure, cx: &Cx) -> R<Vec<(String, String)>> {
        struct V<'x> {
            out: Vec<(Expr, String)>,
            bound: BTreeSet<String>,
            _p: std::marker::PhantomData<&'x ()>,
        }
        fn pats(p: &Pat, b: &mut BTreeSet<String>) {
            match p {
                Pat::Ident(i) => {
                    b.insert(i.ident.to_string());
                }
                Pat::Tuple(t) => t.elems.iter().for_each(|x| pats(x, b)),
                Pat::TupleStruct(t) => t.elems.iter().for_each(|x| pats(x, b)),
                Pat::Reference(r) => pats(&r.pat, b),
                Pat::Type(r) => pats(&r.pat, b),
                Pat::Struct(s) => s.fields.iter().for_each(|x| pats(&x.pat, b)),
                Pat::Paren(x) => pats(&x.pat, b),
                Pat::Or(o) => o.cases.iter().for_each(|x| pats(x, b)),
                _ => {}
            }
        }
        let mut v = V { out: vec![], bound: BTreeSet::new(), _p: Default::default() };
        for p in &cl.inputs {
            pats(p, &mut v.bound);
        }
        // all identifiers of the body, by a walk over its token stream
        fn walk(ts: proc_macro2::TokenStream, out: &mut Vec<(Expr, String)>) {
            for t in ts {
                match t {
                    proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                    proc_macro2::TokenTree::Ident(i) => {
                        let n = i.to_string();
                        let mut p = Path { leading_colon: None, segments: Default::default() };
                        p.segments.push(PathSegment { ident: i, arguments: PathArguments::None });
                        out.push((Expr::Path(ExprPath { attrs: vec![], qself: None, path: p }), n));
                    }
                    _ => {}
                }
            }
        }
        let body = &cl.body;
        walk(quote::quote!(#body), &mut v.out);
        let mut res: Vec<(String, String)> = vec![];
        // names bound inside
        let body_src = ts(&cl.body);
        for (e, n) in &v.out {
            if v.bound.contains(n) {
                continue;
            }
            let en = self.ent(cx, e);
            if let Some(x) = en.iter().find(|x| x.kind == "local") {
                if res.iter().any(|(m, _)| m == n) {
                    continue;
                }
                if body_src.contains(&format!("let {} ", n)) || body_src.contains(&format!("| {} |", n)) || body_src.contains(&format!("Some ({})", n)) {
                    continue;
                }
                res.push((n.clone(), x.ty.clone()));
            }
        }
        Ok(res)
    }
    /// a comparison or probe closure lifted to a function; returns (call-name, extra args, cmp, req)
    fn lift(&mut self, c: &Expr, elem: &str, nargs: usize, cx: &Cx) -> R<(String, String, String, String, usize)> {
        let (c, cx) = match Self::unparen(c) {
            Expr::Path(p) if p.path.segments.len() == 1 && cx.hof.contains_key(&p.path.segments[0].ident.to_string()) => {
                let (e, c2) = cx.hof[&p.path.segments[0].ident.to_string()].clone();
                (e, *c2)
            }
            x => (x.clone(), cx.clone()),
        };
        let cl = match Self::unparen(&c) {
            Expr::Closure(c) => c.clone(),
            _ => return Err("comparison function value".into()),
        };
        let k = self.nclo;
        self.nclo += 1;
        let cc = self.fc.closures.get(&k).cloned().ok_or_else(|| format!("closure {} without contract", k))?;
        let caps = self.captures(&cl, &cx)?;
        let et = self.map_rty(elem)?;
        let mut params = vec![];
        let mut pre = String::new();
        for (i, p) in cl.inputs.iter().enumerate() {
            let (ps, pr) = self.pat(&cx, p)?;
            params.push(format!("__a{}: &{}", i, et));
            pre.push_str(&format!("let {} = __a{};\n{}", ps, i, pr));
        }
        let mut cargs = vec![];
        for (n, t) in &caps {
            let mt = self.map_rty(t)?;
            if is_copy(t) {
                params.push(format!("{}: {}", n, mt));
                cargs.push(n.clone());
            } else {
                params.push(format!("{}: &{}", n, mt));
                cargs.push(format!("&{}", n));
            }
        }
        let mut c2 = cx.clone();
        c2.closure = true;
        c2.tail = true;
        c2.rb = 0;
        let sv = std::mem::replace(&mut self.fc.panics, "false".into());
        let b = match Self::unparen(&cl.body) {
            Expr::Block(b) => self.stmts(&b.block.stmts, &c2, None)?,
            e => self.stmts(&[Stmt::Expr(e.clone(), None)], &c2, None)?,
        };
        self.fc.panics = sv;
        let name = format!("{}__closure{}", self.fname.rsplit("::").next().unwrap(), k);
        let req = if cc.req.trim().is_empty() { String::new() } else { (0..nargs).map(|i| format!("({})(*__a{}),\n", cc.req.trim(), i)).collect::<String>() };
        let a: Vec<String> = (0..nargs).map(|i| format!("*__a{}", i)).collect();
        self.helpers.push(format!(
            "#[verifier::loop_isolation(false)]\npub fn {}({}{}) -> (r: Ordering)\nrequires\ntrue,\n{}ensures\n/*same*/ord_int(r) == ({})({}),\n{{\n{}{}{}}}\n",
            name,
            params.join(", "),
            wmark("!?", false),
            req.replace("*w", "*old(w)"),
            cc.cmp.trim().replace("*w", "*old(w)"),
            a.join(", "),
            cc.entry,
            pre,
            b
        ));
        Ok((name, cargs.join(", "), cc.cmp.trim().to_string(), cc.req.trim().to_string(), k))
    }
    // ------------------------------------------------------------------ methods
    fn method(&mut self, m: &ExprMethodCall, cx: &Cx) -> R<String> {
        let en = self.method_entry(cx, m)?;
        let cal = en.callee.clone();
        let me = Expr::MethodCall(m.clone());
        // iterator consumers
        if cal == "std::iter::Iterator::count" && self.ty(cx, &m.receiver)? == "std::fs::ReadDir" {
            return Ok(format!("{}.count_()", self.expr(&m.receiver, cx)?));
        }
        if cal.starts_with("std::iter::Iterator::") || cal == "std::iter::Extend::extend" {
            return self.iter_method(m, &en, cx);
        }
        // crate functions
        let mut cpath = cal.clone();
        if !self.k.fns.contains_key(&cpath) {
            // trait methods implemented in the crate
            let last = cal.rsplit("::").next().unwrap().to_string();
            let (_, rt) = strip_ref(&self.ty(cx, &m.receiver)?);
            let p = format!("{}::{}", norm_ty(&rt), last);
            if self.k.fns.get(&p).map_or(false, |f| f.trait_.is_some()) {
                cpath = p;
            }
        }
        if cal == "collect::Collect::collect" && !self.k.fns.contains_key(&cpath) {
            return Ok(format!("{}.collect_({})", self.expr(&m.receiver, cx)?, wmark("!", true)));
        }
        if let Some(fi) = self.k.fns.get(&cpath) {
            let recv = self.expr(&m.receiver, cx)?;
            let recv = self.user_deref(recv, &m.receiver, &cpath, cx)?;
            if self.contracted(&cpath) && !self.has_closure_param(&cpath) {
                self.calls.insert(cpath.clone());
                let mut a = self.args(&m.args, cx)?;
                if cpath == "registry::Registry::register" {
                    // the type parameter C: Collect, given one of the crate's own collectors
                    let at = norm_ty(&self.ty(cx, &m.args[0])?);
                    if self.k.fns.contains_key(&format!("{}::collect", at)) {
                        a[0] = format!("as_user({})", a[0]);
                    }
                }
                return Ok(format!("{}.{}({}{})", recv, cpath.rsplit("::").next().unwrap(), a.join(", "), wmark(&cpath, a.is_empty())));
            }
            let t = self.ty(cx, &m.receiver)?;
            let r = match fi.sig.inputs.first() {
                Some(FnArg::Receiver(r)) if r.reference.is_some() => {
                    if t.starts_with('&') {
                        recv
                    } else if r.mutability.is_some() {
                        format!("&mut {}", recv)
                    } else {
                        format!("&{}", recv)
                    }
                }
                _ => recv,
            };
            let a: Vec<Expr> = m.args.iter().cloned().collect();
            return self.inline_fn(&cpath, Some(r), &a, cx);
        }
        let (nr, rt) = strip_ref(&self.ty(cx, &m.receiver)?);
        let rt = rt.as_str();
        let arg = |i: usize| m.args.get(i).cloned();
        if cal.starts_with("std::option::Option::") || cal.starts_with("std::result::Result::") {
            return self.opt_method(m, &cal, cx);
        }
        match cal.as_str() {
            "std::string::ToString::to_string" | "std::borrow::ToOwned::to_owned" | "std::string::String::from" => {
                let (_, st) = strip_ref(&en.selfty);
                let st = if st == "str" || st == "std::string::String" { st } else { rt.to_string() };
                if st == "str" || st == "std::string::String" {
                    return Ok(format!("str_to_string({})", self.str_of(&m.receiver, cx)?));
                }
                let x = self.expr(&m.receiver, cx)?;
                let b = self.tmp();
                let body = self.disp(&format!("__b{}", b), true, &x, nr, rt)?;
                let p = self.panic_();
                return Ok(format!("{{ let mut __b{} = Fmt::buffer();\nmatch {} {{ Ok(_) => {{}} Err(_) => {} }}\n__b{}.into_string() }}", b, body, p, b));
            }
            "std::convert::AsRef::as_ref" | "std::string::String::as_str" | "std::ops::Deref::deref" => {
                let x = self.expr(&m.receiver, cx)?;
                if rt == "std::string::String" {
                    return Ok(format!("{}.as_str()", x));
                }
                if rt == "str" {
                    return Ok(x);
                }
                if rt.starts_with("std::vec::Vec<") {
                    return Ok(format!("{}.as_slice()", x));
                }
                return Err(format!("as_ref on {}", rt));
            }
            "std::clone::Clone::clone" => {
                let x = self.expr(&m.receiver, cx)?;
                let t = self.ty(cx, &me)?;
                let (_, bt) = strip_ref(&t);
                self.clone_ok(&bt)?;
                let at = self.ty_adj(cx, &m.receiver)?.1;
                let n = strip_ref(&self.ty(cx, &m.receiver)?).0;
                let _ = at;
                return Ok(if n == 0 { format!("clone_val(&{})", x) } else { format!("clone_val({})", stars(n - 1, &x)) });
            }
            "std::convert::Into::into" => {
                let x = self.expr(&m.receiver, cx)?;
                let from = self.ty(cx, &m.receiver)?;
                let to = self.ty(cx, &me)?;
                return self.convert(&from, &to, &x);
            }
            "std::iter::IntoIterator::into_iter" => {
                if nr == 0 && rt.starts_with("std::vec::Vec<") {
                    return Ok(format!("OwnedIter::new({})", self.expr(&m.receiver, cx)?));
                }
                return Err("iterator value".into());
            }
            "std::cmp::PartialOrd::partial_cmp" => {
                let x = self.expr(&m.receiver, cx)?;
                let y = self.expr(&m.args[0], cx)?;
                let (ny, _) = strip_ref(&self.ty(cx, &m.args[0])?);
                if rt == "f64" {
                    return Ok(format!("F64::partial_cmp_({}, {})", stars(nr, &x), stars(ny, &y)));
                }
                let rf = |n: usize, x: &str| if n == 0 { format!("&{}", x) } else { stars(n - 1, x) };
                return Ok(format!("p_partial_cmp({}, {})", rf(nr, &x), rf(ny, &y)));
            }
            "std::cmp::Ord::cmp" => {
                let x = self.expr(&m.receiver, cx)?;
                let y = self.expr(&m.args[0], cx)?;
                let (ny, _) = strip_ref(&self.ty(cx, &m.args[0])?);
                let rf = |n: usize, x: &str| if n == 0 { format!("&{}", x) } else { stars(n - 1, x) };
                return Ok(format!("p_cmp({}, {})", rf(nr, &x), rf(ny, &y)));
            }
            "std::cmp::Ord::max" | "std::cmp::Ord::min" => {
                let x = self.expr(&m.receiver, cx)?;
                let y = self.expr(&m.args[0], cx)?;
                return Ok(format!("p_{}({}, {})", m.method, x, y));
            }
            "std::cmp::PartialEq::eq" | "std::cmp::PartialEq::ne" => {
                let l = self.expr(&m.receiver, cx)?;
                let r = self.expr(&m.args[0], cx)?;
                let (n2, t2) = strip_ref(&self.ty(cx, &m.args[0])?);
                return self.binop(if cal.ends_with("eq") { "==" } else { "!=" }, (&l, nr, rt), (&r, n2, &t2));
            }
            "std::cmp::Ordering::reverse" => return Ok(format!("ord_reverse({})", self.expr(&m.receiver, cx)?)),
            "std::cmp::Ordering::then" => return Ok(format!("ord_then({}, {})", self.expr(&m.receiver, cx)?, self.expr(&m.args[0], cx)?)),
            "std::cmp::Ordering::then_with" => {
                let x = self.expr(&m.receiver, cx)?;
                let y = self.inline_closure(&m.args[0], &[], cx)?;
                return Ok(format!("match {} {{ Ordering::Equal => {}, __o => __o }}", x, y));
            }
            "std::cmp::Ordering::is_eq" => return Ok(format!("ord_is_eq({})", self.expr(&m.receiver, cx)?)),
            "std::cmp::Ordering::is_lt" => return Ok(format!("ord_is_lt({})", self.expr(&m.receiver, cx)?)),
            "std::cmp::Ordering::is_gt" => return Ok(format!("ord_is_gt({})", self.expr(&m.receiver, cx)?)),
            _ => {}
        }
        if rt == "f64" {
            let x = stars(nr, &self.expr(&m.receiver, cx)?);
            let a = self.args(&m.args, cx)?;
            let known = ["is_nan", "is_finite", "is_infinite", "is_sign_positive", "is_sign_negative", "floor", "ceil", "trunc", "fract", "abs", "to_bits", "powi", "powf", "max", "min", "round", "total_cmp"];
            let n = m.method.to_string();
            if known.contains(&n.as_str()) {
                let mut v = vec![x];
                v.extend(a);
                return Ok(format!("F64::{}_({})", n, v.join(", ")));
            }
            return Err(format!("f64::{}", n));
        }
        if is_int(rt) {
            let x = stars(nr, &self.expr(&m.receiver, cx)?);
            let a = self.args(&m.args, cx)?;
            return Ok(match m.method.to_string().as_str() {
                "wrapping_add" => format!("{}_wrapping_add({}, {})", rt, x, a[0]),
                "saturating_sub" => format!("{}_saturating_sub({}, {})", rt, x, a[0]),
                "saturating_add" => format!("{}_saturating_add({}, {})", rt, x, a[0]),
                "min" => format!("p_min({}, {})", x, a[0]),
                "max" => format!("p_max({}, {})", x, a[0]),
                n => return Err(format!("{}::{}", rt, n)),
            });
        }
        if rt == "str" || rt == "std::string::String" {
            let s = self.str_of(&m.receiver, cx)?;
            match m.method.to_string().as_str() {
                "is_empty" => return Ok(format!("str_is_empty({})", s)),
                "len" => return Ok(format!("str_len({})", s)),
                "trim" => return Ok(format!("str_trim({})", s)),
                "trim_start" => return Ok(format!("str_trim_start({})", s)),
                "trim_end" => return Ok(format!("str_trim_end({})", s)),
                "as_str" => return Ok(s),
                "parse" => {
                    let t = self.ty(cx, &me)?;
                    if !t.starts_with("std::result::Result<u64,") {
                        return Err(format!("parse into {}", t));
                    }
                    return Ok(format!("str_parse_u64({})", s));
                }
                "strip_prefix" => {
                    let (n2, t2) = strip_ref(&self.ty(cx, &m.args[0])?);
                    if t2 != "str" && t2 != "std::string::String" {
                        return Err("strip_prefix pattern".into());
                    }
                    let y = self.expr(&m.args[0], cx)?;
                    return Ok(format!("str_strip_prefix({}, {})", s, self.str_ref(&y, n2, &t2)));
                }
                "starts_with" => {
                    let (n2, t2) = strip_ref(&self.ty(cx, &m.args[0])?);
                    let y = self.expr(&m.args[0], cx)?;
                    if t2 == "str" || t2 == "std::string::String" {
                        return Ok(format!("str_starts_with({}, {})", s, self.str_ref(&y, n2, &t2)));
                    }
                    if t2 == "char" {
                        return Ok(format!("str_starts_with_char({}, {})", s, y));
                    }
                    return Err("starts_with pattern".into());
                }
                "push" => return Ok(format!("string_push(&mut {}, {})", self.expr(&m.receiver, cx)?, self.expr(&m.args[0], cx)?)),
                "push_str" => return Ok(format!("string_push_str(&mut {}, {})", self.expr(&m.receiver, cx)?, self.str_of(&m.args[0], cx)?)),
                "as_bytes" => return Err("byte slice value".into()),
                n => return Err(format!("str::{}", n)),
            }
        }
        // text written straight to a formatter
        if rt == "std::fmt::Formatter" || rt.starts_with("std::fmt::Formatter<") {
            let w = self.expr(&m.receiver, cx)?;
            match m.method.to_string().as_str() {
                "write_str" => return Ok(format!("{}.write_str_({})", w, self.str_of(&m.args[0], cx)?)),
                "write_char" => return Ok(format!("{}.write_char_({})", w, self.expr(&m.args[0], cx)?)),
                n => return Err(format!("Formatter::{}", n)),
            }
        }
        if cal == "std::fmt::Display::fmt" {
            let x = self.expr(&m.receiver, cx)?;
            let w = self.expr(&m.args[0], cx)?;
            return self.disp(&w, false, &x, nr, rt);
        }
        let x = self.expr(&m.receiver, cx)?;
        match cal.as_str() {
            "std::sync::atomic::Atomic::load"
            | "std::sync::atomic::Atomic::store"
            | "std::sync::atomic::Atomic::fetch_add"
            | "std::sync::atomic::Atomic::fetch_sub"
            | "std::sync::atomic::Atomic::swap"
            | "std::sync::atomic::Atomic::compare_exchange"
            | "std::sync::atomic::Atomic::compare_exchange_weak" => {
                let a = self.args(&m.args, cx)?;
                return Ok(format!("{}.{}({}{})", x, m.method, a.join(", "), wmark("!", a.is_empty())));
            }
            "atomic_immut::AtomicImmut::load" => return Ok(format!("{}.load({})", x, wmark("!", true))),
            "atomic_immut::AtomicImmut::store" => {
                let a = self.args(&m.args, cx)?;
                return Ok(format!("{}.store({}{})", x, a[0], wmark("!", false)));
            }
            "atomic_immut::AtomicImmut::update" => {
                let k = *self.nat.entry("snap".to_string()).and_modify(|n| *n += 1).or_insert(0);
                let v = self.inline_closure(&m.args[0], &[format!("__snap{}.as_vec()", k)], cx)?;
                return Ok(format!("{{ let __snap{} = {}.update_begin({});\nlet __v{} = {};\n{}.update_end(__snap{}, __v{}{});\n}}", k, x, wmark("!", true), k, v, x, k, k, wmark("!", false)));
            }
            "std::sync::Mutex::lock" if rt.contains("registry::Gatherer") => return Ok(format!("{}.lock()", x)),
            "std::sync::Mutex::lock" => return Ok(format!("{}.lock({})", x, wmark("!", true))),
            "std::sync::Weak::upgrade" => return Ok(format!("{}.upgrade({})", x, wmark("!", true))),
            "std::sync::mpsc::Sender::send" => {
                let a = self.args(&m.args, cx)?;
                return Ok(format!("{}.send({}{})", x, a[0], wmark("!", false)));
            }
            "std::sync::mpsc::Receiver::try_recv" => return Ok(format!("{}.try_recv({})", x, wmark("!", true))),
            "std::time::Instant::elapsed" => return Ok(format!("{}.elapsed({})", x, wmark("!", true))),
            "std::time::SystemTime::duration_since" | "std::time::Duration::as_secs" | "std::time::Duration::subsec_nanos" | "std::time::Duration::subsec_millis" | "std::time::Duration::as_millis" | "std::time::Duration::subsec_micros" => {
                let a = self.args(&m.args, cx)?;
                return Ok(format!("{}.{}({})", x, m.method, a.join(", ")));
            }
            "std::slice::iter" if rt.starts_with("std::vec::Vec<") || rt.starts_with('[') || rt.contains("Arc<") => {
                let src = self.slice_source(&m.receiver, cx)?;
                if let Source::Slice(e, _) = src {
                    return Ok(format!("SliceIter::new({})", e));
                }
                return Err("iter".into());
            }
            "std::iter::Peekable::peek" => return Ok(format!("{}.peek()", x)),
            "std::vec::Vec::push" | "std::vec::Vec::len" | "std::vec::Vec::is_empty" | "std::vec::Vec::pop" | "std::vec::Vec::clear" | "std::vec::Vec::insert" | "std::vec::Vec::remove" | "std::vec::Vec::truncate" | "std::vec::Vec::as_slice" => {
                let a = self.args(&m.args, cx)?;
                if rt.starts_with("std::sync::Arc<") && m.method == "is_empty" {
                    return Ok(format!("({}.len() == 0)", x));
                }
                if m.method == "is_empty" {
                    return Ok(format!("({}.len() == 0)", x));
                }
                return Ok(format!("{}.{}({})", x, m.method, a.join(", ")));
            }
            "std::vec::Vec::append" => {
                let a = self.args(&m.args, cx)?;
                return Ok(format!("vec_append(&mut {}, {})", x, a[0]));
            }
            "std::vec::Vec::extend_from_slice" => {
                let a = self.args(&m.args, cx)?;
                return Ok(format!("vec_extend_from_slice(&mut {}, vslice({}))", x, a[0]));
            }
            "std::vec::Vec::swap_remove" => {
                let a = self.args(&m.args, cx)?;
                return Ok(format!("vec_swap_remove(&mut {}, {})", x, a[0]));
            }
            "std::slice::len" => return Ok(format!("{}.len()", x)),
            "std::slice::is_empty" => return Ok(format!("({}.len() == 0)", x)),
            "std::slice::to_vec" => return Ok(format!("slice_to_vec({})", self.slice_expr(&m.receiver, cx)?)),
            "std::slice::last" | "std::slice::first" | "std::slice::get" => {
                let s = self.slice_expr(&m.receiver, cx)?;
                let a = self.args(&m.args, cx)?;
                let mut v = vec![s];
                v.extend(a);
                return Ok(format!("slice_{}({})", m.method, v.join(", ")));
            }
            "std::slice::last_mut" => {
                if rt.starts_with("std::vec::Vec<") {
                    return Ok(format!("{}.last_mut()", if nr > 0 { x } else { x }));
                }
                return Err("last_mut".into());
            }
            "std::slice::get_mut" => return Err("get_mut".into()),
            "std::slice::sort" | "std::slice::sort_unstable" => {
                let el = en.selfty.clone();
                let c = format!("{}(&mut {});\n", if self.user_ord(&el) { "vec_sort_user" } else { "vec_sort" }, x);
                return Ok(self.around("sort", "sorted", &x, c));
            }
            "std::slice::sort_by" | "std::slice::sort_unstable_by" => {
                let (name, caps, cmp, req, _) = self.lift(&m.args[0], &en.selfty, 2, cx)?;
                let el = self.map_rty(&en.selfty)?;
                let rq = if req.is_empty() { String::new() } else { format!("proof {{ assert forall|__q: int| #![trigger {}@[__q]] 0 <= __q < {}@.len() implies ({})({}@[__q]) by {{}} }}\n", x, x, req, x) };
                let _ = (name, caps);
                let c = format!("{}vec_sort_by(&mut {}, Ghost({}));\n", rq, x, cmp_ty(&cmp, &el));
                return Ok(self.around("sort", "sorted", &x, c));
            }
            "std::slice::sort_by_cached_key" | "std::slice::sort_by_key" | "std::slice::sort_unstable_by_key" => {
                // the keys first, in order, then the arrangement
                let cl = match Self::unparen(&m.args[0]) {
                    Expr::Closure(c) => c.clone(),
                    _ => return Err("key function value".into()),
                };
                let tail = match Self::unparen(&cl.body) {
                    Expr::Block(b) => match b.block.stmts.last() {
                        Some(Stmt::Expr(e, None)) => e.clone(),
                        _ => return Err("key function".into()),
                    },
                    e => e.clone(),
                };
                let kt = self.ty(cx, &tail).and_then(|t| self.map_rty(&t))?;
                let ks = format!("__ks{}", self.nloop);
                let (arg0, cx2, k2) = (m.args[0].clone(), cx.clone(), ks.clone());
                let (pre, code) = self.emit_loop(Chain { src: Source::Slice(format!("{}.as_slice()", x), en.selfty.clone()), ads: vec![] }, "", &mut |me, item| {
                    let c = me.inline_closure(&arg0, &[item], &cx2)?;
                    Ok(format!("{}.push({});\n", k2, c))
                })?;
                if !cal.ends_with("cached_key") && code.contains("Tracked(w)") {
                    return Err("a key which is read again and again".into());
                }
                let c = self.around("sort", "sorted", &x, format!("vec_sort_by_keys(&mut {}, {});\n", x, ks)).replace("$k", &ks);
                return Ok(format!("{{ let mut {}: Vec<{}> = Vec::new();\n{}{};\n{} }}", ks, kt, pre, code, c));
            }
            "std::slice::binary_search_by" => {
                let (_, _, cmp, req, _) = self.lift(&m.args[0], &en.selfty, 1, cx)?;
                let s = self.slice_expr(&m.receiver, cx)?;
                let k = self.tmp();
                let v = format!("__b{}", k);
                let rq = if req.is_empty() { String::new() } else { format!("proof {{ assert forall|__q: int| #![trigger {}@[__q]] 0 <= __q < {}@.len() implies ({})({}@[__q]) by {{}} }}\n", v, v, req, v) };
                let c = self.around("search", "searched", &v, format!("{}let __r{} = slice_binary_search_by({}, Ghost({}));\n", rq, k, v, cmp));
                let c = c.replace("$r", &format!("__r{}", k)).trim_end().trim_end_matches('}').to_string();
                return Ok(format!("{{ let {} = {};\n{} __r{} }} }}", v, s, c, k));
            }
            "std::vec::Vec::retain" => {
                // retain(p): keep, in order, the elements for which p holds
                let k = self.tmp();
                let old = format!("__o{}", k);
                let arg0 = m.args[0].clone();
                let cx2 = cx.clone();
                let xx = x.clone();
                let (pre, code) = self.emit_loop(Chain { src: Source::Owned(old.clone()), ads: vec![] }, "", &mut |me, item| {
                    let c = me.inline_closure(&arg0, &[format!("&{}", item)], &cx2)?;
                    Ok(format!("let __k{} = {};\nif __k{} {{ {}.push({}); }}\n", k, c, k, xx, item))
                })?;
                return Ok(format!("{{ let {} = vec_take(&mut {});\n{}{}}}", old, x, pre, code));
            }
            "std::vec::Vec::dedup_by" | "std::vec::Vec::dedup" | "std::vec::Vec::dedup_by_key" => {
                let k = self.tmp();
                let old = format!("__o{}", k);
                let arg0 = m.args.first().cloned();
                let cx2 = cx.clone();
                let xx = x.clone();
                let which = m.method.to_string();
                let el = en.selfty.clone();
                let (pre, code) = self.emit_loop(Chain { src: Source::Owned(old.clone()), ads: vec![] }, "", &mut |me, item| {
                    let c = match (which.as_str(), &arg0) {
                        ("dedup_by", Some(a)) => me.inline_closure(a, &[format!("&{}", item), format!("__l{}", k)], &cx2)?,
                        ("dedup", _) => {
                            let it = format!("&{}", item);
                            me.binop("==", (&it, 1, &el), (&format!("__l{}", k), 1, &el))?
                        }
                        _ => return Err("dedup_by_key".into()),
                    };
                    Ok(format!("let __k{} = match vec_last(&{}) {{ Some(__l{}) => {}, None => false }};\nif !__k{} {{ {}.push({}); }}\n", k, xx, k, c, k, xx, item))
                })?;
                return Ok(format!("{{ let {} = vec_take(&mut {});\n{}{}}}", old, x, pre, code));
            }
            "std::collections::VecDeque::push_back" | "std::collections::VecDeque::push_front" | "std::collections::VecDeque::pop_front" | "std::collections::VecDeque::pop_back" | "std::collections::VecDeque::front" | "std::collections::VecDeque::back" | "std::collections::VecDeque::len" | "std::collections::VecDeque::is_empty" | "std::collections::VecDeque::clear" => {
                let a = self.args(&m.args, cx)?;
                return Ok(format!("{}.{}({})", x, m.method, a.join(", ")));
            }
            _ => {}
        }
        let _ = arg;
        Err(format!("method {}", cal))
    }
    fn user_ord(&self, el: &str) -> bool {
        self.k.fns.get(&format!("{}::cmp", norm_ty(el))).map_or(false, |f| f.trait_.as_deref() == Some("Ord"))
    }
    fn slice_expr(&mut self, e: &Expr, cx: &Cx) -> R<String> {
        match self.slice_source(e, cx)? {
            Source::Slice(s, _) => Ok(s),
            _ => Err("slice".into()),
        }
    }
    fn clone_ok(&self, t: &str) -> R<()> {
        let b = norm_ty(t);
        if self.k.local_types.contains_key(&b) {
            if self.k.derives.get(&b).map_or(false, |d| d.iter().any(|x| x == "Clone")) {
                return Ok(());
            }
            return Err(format!("clone of {} is not derived", t));
        }
        if is_int(t) || ["bool", "char", "f64", "std::string::String", "str"].contains(&t) || t.starts_with("std::sync::Arc<") || t.starts_with("std::sync::Weak<") || t.starts_with("std::sync::mpsc::Sender<") || t.starts_with("std::time::") {
            return Ok(());
        }
        if t.starts_with("std::vec::Vec<") || t.starts_with("std::option::Option<") || t.starts_with('(') {
            for a in type_args(t) {
                self.clone_ok(&strip_ref(&a).1)?;
            }
            return Ok(());
        }
        Err(format!("clone of {}", t))
    }
    /// a call through the crate's own Deref
    fn user_deref(&mut self, recv: String, e: &Expr, callee: &str, cx: &Cx) -> R<String> {
        let (t, adj) = self.ty_adj(cx, e)?;
        let a = norm_ty(&strip_ref(&t).1);
        let b = norm_ty(&strip_ref(&adj).1);
        if a != b && self.k.local_types.contains_key(&a) && self.k.local_types.contains_key(&b) {
            let d = format!("{}::deref", a);
            if self.contracted(&d) {
                self.calls.insert(d.clone());
                return Ok(format!("{}.deref({})", recv, wmark(&d, true)));
            }
            return Err(format!("{} through Deref of {}", callee, a));
        }
        Ok(recv)
    }
    fn opt_method(&mut self, m: &ExprMethodCall, cal: &str, cx: &Cx) -> R<String> {
        let x = self.expr(&m.receiver, cx)?;
        let x = if x.starts_with('{') || x.starts_with("match ") || x.starts_with("if ") { format!("({})", x) } else { x };
        let res = cal.starts_with("std::result::");
        let k = self.tmp();
        let v = format!("__v{}", k);
        let n = m.method.to_string();
        let rt = self.ty(cx, &m.receiver)?;
        if is_guard(&rt) {
            return Err("a lock used as a value".into());
        }
        Ok(match n.as_str() {
            "is_some" | "is_none" | "is_ok" | "is_err" => {
                let p = match n.as_str() {
                    "is_some" => "Some(_) => true, None => false",
                    "is_none" => "Some(_) => false, None => true",
                    "is_ok" => "Ok(_) => true, Err(_) => false",
                    _ => "Ok(_) => false, Err(_) => true",
                };
                format!("(match {} {{ {} }})", self.by_ref(&x, &rt), p)
            }
            "as_ref" if !res => {
                if rt.starts_with('&') {
                    format!("{}.as_ref()", x)
                } else {
                    format!("{}.as_ref()", x)
                }
            }
            "as_mut" | "take" | "replace" | "insert" | "get_or_insert" => return Err(format!("Option::{}", n)),
            "cloned" | "copied" => format!("(match {} {{ Some({}) => Some(clone_val({})), None => None }})", x, v, v),
            "as_deref" => format!("(match {}.as_ref() {{ Some({}) => Some({}.as_str()), None => None }})", x, v, v),
            "map" | "and_then" => {
                let b = self.inline_closure(&m.args[0], &[v.clone()], cx)?;
                let (a, z) = if res { ("Ok", "Err(__e) => Err(__e)") } else { ("Some", "None => None") };
                if n == "map" {
                    format!("(match {} {{ {}({}) => {}({}), {} }})", x, a, v, a, b, z)
                } else {
                    format!("(match {} {{ {}({}) => {}, {} }})", x, a, v, b, z)
                }
            }
            "filter" => {
                let b = self.inline_closure(&m.args[0], &[format!("&{}", v)], cx)?;
                format!("(match {} {{ Some({}) => {{ let __p{} = {}; if __p{} {{ Some({}) }} else {{ None }} }}, None => None }})", x, v, k, b, k, v)
            }
            "map_or" => {
                let d = self.expr(&m.args[0], cx)?;
                let b = self.inline_closure(&m.args[1], &[v.clone()], cx)?;
                let (a, z) = if res { ("Ok", "Err(_)") } else { ("Some", "None") };
                format!("({{ let __d{} = {}; match {} {{ {}({}) => {}, {} => __d{} }} }})", k, d, x, a, v, b, z, k)
            }
            "map_or_else" => {
                let d = if res { self.inline_closure(&m.args[0], &["__e".to_string()], cx)? } else { self.inline_closure(&m.args[0], &[], cx)? };
                let b = self.inline_closure(&m.args[1], &[v.clone()], cx)?;
                let (a, z) = if res { ("Ok", "Err(__e)") } else { ("Some", "None") };
                format!("(match {} {{ {}({}) => {}, {} => {} }})", x, a, v, b, z, d)
            }
            "is_some_and" => {
                let b = self.inline_closure(&m.args[0], &[v.clone()], cx)?;
                format!("(match {} {{ Some({}) => {}, None => false }})", x, v, b)
            }
            "unwrap_or" => {
                let d = self.expr(&m.args[0], cx)?;
                let (a, z) = if res { ("Ok", "Err(_)") } else { ("Some", "None") };
                format!("({{ let __d{} = {}; match {} {{ {}({}) => {}, {} => __d{} }} }})", k, d, x, a, v, v, z, k)
            }
            "unwrap_or_default" => return Err("unwrap_or_default".into()),
            "unwrap_or_else" => {
                let (a, z, d) = if res { ("Ok", "Err(__e)", self.inline_closure(&m.args[0], &["__e".to_string()], cx)?) } else { ("Some", "None", self.inline_closure(&m.args[0], &[], cx)?) };
                format!("(match {} {{ {}({}) => {}, {} => {} }})", x, a, v, v, z, d)
            }
            "or" => {
                let d = self.expr(&m.args[0], cx)?;
                format!("({{ let __d{} = {}; match {} {{ Some({}) => Some({}), None => __d{} }} }})", k, d, x, v, v, k)
            }
            "or_else" if !res => {
                let d = self.inline_closure(&m.args[0], &[], cx)?;
                format!("(match {} {{ Some({}) => Some({}), None => {} }})", x, v, v, d)
            }
            "ok_or" => {
                let d = self.expr(&m.args[0], cx)?;
                format!("({{ let __d{} = {}; match {} {{ Some({}) => Ok({}), None => Err(__d{}) }} }})", k, d, x, v, v, k)
            }
            "ok" => format!("(match {} {{ Ok({}) => Some({}), Err(_) => None }})", x, v, v),
            "err" => format!("(match {} {{ Ok(_) => None, Err({}) => Some({}) }})", x, v, v),
            "map_err" => {
                let b = self.inline_closure(&m.args[0], &["__e".to_string()], cx)?;
                format!("(match {} {{ Ok({}) => Ok({}), Err(__e) => Err({}) }})", x, v, v, b)
            }
            "expect" | "unwrap" => {
                let p = self.panic_();
                let (a, z) = if res { ("Ok", "Err(_)") } else { ("Some", "None") };
                format!("(match {} {{ {}({}) => {}, {} => {} }})", x, a, v, v, z, p)
            }
            _ => return Err(format!("{}", cal)),
        })
    }
    fn by_ref(&self, x: &str, t: &str) -> String {
        if t.starts_with('&') || !is_place(x) {
            x.to_string()
        } else {
            format!("(&{})", x)
        }
    }
    fn iter_method(&mut self, m: &ExprMethodCall, en: &TEntry, cx: &Cx) -> R<String> {
        let n = m.method.to_string();
        let me = Expr::MethodCall(m.clone());
        let k = self.tmp();
        let acc = format!("__acc{}", self.nloop);
        match n.as_str() {
            // the first of a chain made on the spot
            "next" if matches!(Self::unparen(&m.receiver), Expr::MethodCall(r) if ["map", "filter", "filter_map", "lines", "chars", "cloned", "copied"].contains(&r.method.to_string().as_str())) => {
                let ch = self.chain(&m.receiver, cx)?;
                if ch.ads.iter().any(|a| matches!(a, Ad::FlatMap(..))) {
                    return Err("next after flat_map".into());
                }
                let t = self.ty(cx, &me)?;
                let ann = self.map_rty(&t).map(|s| format!(": {}", s)).unwrap_or_default();
                let a2 = acc.clone();
                let (pre, code) = self.emit_loop(ch, &format!("{}.is_none()", acc), &mut |_, item| Ok(format!("{} = Some({});\n", a2, item)))?;
                return Ok(format!("{{ let mut {}{} = None;\n{}{}{} }}", acc, ann, pre, code, acc));
            }
            "next" => {
                let (_, t) = strip_ref(&self.ty(cx, &m.receiver)?);
                let x = self.expr(&m.receiver, cx)?;
                let p = format!("{}::next", norm_ty(&t));
                if self.contracted(&p) {
                    self.calls.insert(p.clone());
                    return Ok(format!("{}.next({})", x, wmark(&p, true)));
                }
                if t.starts_with("std::slice::Iter<") || t.starts_with("std::iter::Peekable<") {
                    return Ok(format!("{}.next()", x));
                }
                return Err(format!("next on {}", t));
            }
            "peekable" => {
                let x = self.expr(&m.receiver, cx)?;
                return Ok(format!("PeekIter::of({})", x));
            }
            "eq" | "cmp" | "ne" => {
                let a = self.expr(&m.receiver, cx)?;
                let b = self.expr(&m.args[0], cx)?;
                let (_, t) = strip_ref(&self.ty(cx, &m.receiver)?);
                if norm_ty(&t) == "label::Iter" && norm_ty(&strip_ref(&self.ty(cx, &m.args[0])?).1) == "label::Iter" {
                    if n == "ne" {
                        return Ok(format!("!crate::label_iter_eq({}, {})", a, b));
                    }
                    return Ok(format!("crate::label_iter_{}({}, {})", n, a, b));
                }
                return Err(format!("Iterator::{} on {}", n, t));
            }
            "collect" => {
                let t = self.ty(cx, &me)?;
                if self.k.types.e.is_empty() {
                    return Err("types".into());
                }
                // identity: collecting an owned vector
                let ch = self.chain(&m.receiver, cx)?;
                if ch.ads.is_empty() {
                    if let Source::Owned(x) = &ch.src {
                        if t.starts_with("std::vec::Vec<") {
                            return Ok(format!("owned({})", x));
                        }
                    }
                }
                let lk = self.nloop;
                let acc = format!("__acc{}", lk);
                if t.starts_with("std::vec::Vec<") {
                    let el = self.map_rty(&t).map(|s| format!(": {}", s)).unwrap_or_default();
                    let a2 = acc.clone();
                    let (pre, code) = self.emit_loop(ch, "", &mut |_, item| Ok(format!("{}.push({});\n", a2, item)))?;
                    return Ok(format!("{{ let mut {}{} = Vec::new();\n{}{}{} }}", acc, el, pre, code, acc));
                }
                if t.starts_with("std::result::Result<std::vec::Vec<") {
                    let v = type_args(&t)[0].clone();
                    let el = self.map_rty(&v).map(|s| format!(": {}", s)).unwrap_or_default();
                    let a2 = acc.clone();
                    let er = format!("__err{}", lk);
                    let e2 = er.clone();
                    let (pre, code) = self.emit_loop(ch, &format!("{}.is_none()", er), &mut |_, item| Ok(format!("match {} {{ Ok(__o{}) => {{ {}.push(__o{}); }} Err(__e{}) => {{ {} = Some(__e{}); }} }}\n", item, k, a2, k, k, e2, k)))?;
                    return Ok(format!("{{ let mut {}{} = Vec::new();\nlet mut {}: Option<crate::error::ErrorKind> = None;\n{}{}match {} {{ Some(__e) => Err(__e), None => Ok({}) }} }}", acc, el, er, pre, code, er, acc));
                }
                return Err(format!("collect into {}", t));
            }
            "extend" => {
                let x = self.expr(&m.receiver, cx)?;
                let (_, rt) = strip_ref(&self.ty(cx, &m.receiver)?);
                if !rt.starts_with("std::vec::Vec<") {
                    return Err(format!("extend of {}", rt));
                }
                let ch = self.chain(&m.args[0], cx)?;
                let (pre, code) = self.emit_loop(ch, "", &mut |_, item| Ok(format!("{}.push({});\n", x, item)))?;
                return Ok(format!("{{ {}{} }}", pre, code));
            }
            "sum" | "count" | "max" | "min" | "last" => {
                let t = self.ty(cx, &me)?;
                let ch = self.chain(&m.receiver, cx)?;
                let (init, ann) = match (n.as_str(), t.as_str()) {
                    ("sum", "f64") => ("F64::sum_zero()".to_string(), ": F64"),
                    ("sum", "u64") => ("0".to_string(), ": u64"),
                    ("count", _) => ("0".to_string(), ": usize"),
                    ("max", _) | ("min", _) | ("last", _) => ("None".to_string(), ""),
                    _ => return Err(format!("{} into {}", n, t)),
                };
                let a2 = acc.clone();
                let (nn, tt) = (n.clone(), t.clone());
                let (pre, code) = self.emit_loop(ch, "", &mut |_, item| {
                    Ok(match (nn.as_str(), tt.as_str()) {
                        ("sum", "f64") => format!("{} = F64::fadd_({}, {});\n", a2, a2, item),
                        ("sum", _) => format!("{} = u64_add({}, {});\n", a2, a2, item),
                        ("count", _) => format!("{} = {} + 1;\n", a2, a2),
                        ("last", _) => format!("{} = Some({});\n", a2, item),
                        (w, _) => format!("{} = match {} {{ None => Some({}), Some(__m) => Some(p_{}(__m, {})) }};\n", a2, a2, item, w, item),
                    })
                })?;
                let ann = if ann.is_empty() { self.map_rty(&t).map(|s| format!(": {}", s)).unwrap_or_default() } else { ann.to_string() };
                return Ok(format!("{{ let mut {}{} = {};\n{}{}{} }}", acc, ann, init, pre, code, acc));
            }
            "find_map" => {
                let mut ch = self.chain(&m.receiver, cx)?;
                if ch.ads.iter().any(|a| matches!(a, Ad::FlatMap(..))) {
                    return Err("find_map after flat_map".into());
                }
                ch.ads.push(Ad::FilterMap(m.args[0].clone(), cx.clone()));
                let t = self.ty(cx, &me)?;
                let ann = self.map_rty(&t).map(|s| format!(": {}", s)).unwrap_or_default();
                let a2 = acc.clone();
                let (pre, code) = self.emit_loop(ch, &format!("{}.is_none()", acc), &mut |_, item| Ok(format!("{} = Some({});\n", a2, item)))?;
                return Ok(format!("{{ let mut {}{} = None;\n{}{}{} }}", acc, ann, pre, code, acc));
            }
            "find" | "any" | "all" | "position" => {
                let ch = self.chain(&m.receiver, cx)?;
                if ch.ads.iter().any(|a| matches!(a, Ad::FlatMap(..))) {
                    return Err(format!("{} after flat_map", n));
                }
                let (a0, cx2) = (m.args[0].clone(), cx.clone());
                let a2 = acc.clone();
                let t = self.ty(cx, &me)?;
                let ann = self.map_rty(&t).map(|s| format!(": {}", s)).unwrap_or_default();
                let (init, cond) = match n.as_str() {
                    "find" => ("None", format!("{}.is_none()", acc)),
                    "any" => ("false", format!("!{}", acc)),
                    "all" => ("true", acc.clone()),
                    _ => return Err("position".into()),
                };
                let nn = n.clone();
                let (pre, code) = self.emit_loop(ch, &cond, &mut |me, item| {
                    let arg = if nn == "find" { format!("&{}", item) } else { item.clone() };
                    let c = me.inline_closure(&a0, &[arg], &cx2)?;
                    let hit = match nn.as_str() {
                        "find" => format!("if __h{} {{ {} = Some({}); }}\n", k, a2, item),
                        "any" => format!("if __h{} {{ {} = true; }}\n", k, a2),
                        _ => format!("if !__h{} {{ {} = false; }}\n", k, a2),
                    };
                    Ok(format!("let __h{} = {};\n{}", k, c, hit))
                })?;
                return Ok(format!("{{ let mut {}{} = {};\n{}{}{} }}", acc, ann, init, pre, code, acc));
            }
            "fold" => {
                let init = self.expr(&m.args[0], cx)?;
                let ch = self.chain(&m.receiver, cx)?;
                let (a1, cx2) = (m.args[1].clone(), cx.clone());
                let a2 = acc.clone();
                let t = self.ty(cx, &me)?;
                let ann = self.map_rty(&t).map(|s| format!(": {}", s)).unwrap_or_default();
                let (pre, code) = self.emit_loop(ch, "", &mut |me, item| {
                    let c = me.inline_closure(&a1, &[a2.clone(), item], &cx2)?;
                    Ok(format!("{} = {};\n", a2, c))
                })?;
                return Ok(format!("{{ let mut {}{} = {};\n{}{}{} }}", acc, ann, init, pre, code, acc));
            }
            "for_each" => {
                let ch = self.chain(&m.receiver, cx)?;
                let (a0, cx2) = (m.args[0].clone(), cx.clone());
                let (pre, code) = self.emit_loop(ch, "", &mut |me, item| Ok(format!("{};\n", me.inline_closure(&a0, &[item], &cx2)?)))?;
                return Ok(format!("{{ {}{} }}", pre, code));
            }
            _ => {}
        }
        Err(format!("{} ({})", en.callee, n))
    }
    // ------------------------------------------------------------------ text
    /// write the Display form of a value to writer `w`
    fn disp(&mut self, w: &str, own: bool, x: &str, nr: usize, t: &str) -> R<String> {
        let t2 = norm_ty(t);
        let wr = if own { format!("&mut {}", w) } else { w.to_string() };
        if t == "str" {
            return Ok(format!("{}.write_str_({})", w, stars(nr.saturating_sub(1), x)));
        }
        if t == "std::string::String" {
            return Ok(format!("{}.write_str_({}.as_str())", w, x));
        }
        if t == "char" {
            return Ok(format!("{}.write_char_({})", w, stars(nr, x)));
        }
        if t == "f64" {
            return Ok(format!("{}.write_f64_({})", w, stars(nr, x)));
        }
        if is_int(t) {
            return Ok(format!("{}.write_{}_({})", w, t, stars(nr, x)));
        }
        let p = format!("{}::fmt", t2);
        if let Some(f) = self.k.fns.get(&p) {
            if f.trait_.as_deref() == Some("Display") {
                if self.contracted(&p) {
                    self.calls.insert(p.clone());
                    let xr = if nr == 0 { format!("(&{})", x) } else { stars(nr - 1, x) };
                    return Ok(format!("{}.fmt({}{})", xr, wr, wmark(&p, false)));
                }
                return Err(format!("{} has no contract", p));
            }
        }
        Err(format!("Display of {}", t))
    }
    fn fmt_writes(&mut self, w: &str, own: bool, args: &[Expr], nl: bool, cx: &Cx) -> R<String> {
        let mut lit = String::new();
        let mut rest: Vec<Expr> = vec![];
        if let Some(f) = args.first() {
            match Self::unparen(f) {
                Expr::Lit(ExprLit { lit: Lit::Str(s), .. }) => lit = s.value(),
                _ => return Err("format string".into()),
            }
            rest = args[1..].to_vec();
        }
        if nl {
            lit.push('\n');
        }
        let mut pieces: Vec<R<String>> = vec![];
        let mut cur = String::new();
        let cs: Vec<char> = lit.chars().collect();
        let mut i = 0;
        let mut next = 0;
        let mut steps: Vec<(bool, String, usize)> = vec![]; // (is literal, text, arg index)
        let mut named: Vec<(usize, String)> = vec![];
        while i < cs.len() {
            if cs[i] == '{' && i + 1 < cs.len() && cs[i + 1] == '{' {
                cur.push('{');
                i += 2;
                continue;
            }
            if cs[i] == '}' && i + 1 < cs.len() && cs[i + 1] == '}' {
                cur.push('}');
                i += 2;
                continue;
            }
            if cs[i] == '{' {
                let mut j = i + 1;
                let mut spec = String::new();
                while j < cs.len() && cs[j] != '}' {
                    spec.push(cs[j]);
                    j += 1;
                }
                if !cur.is_empty() {
                    steps.push((true, std::mem::take(&mut cur), 0));
                }
                if spec.is_empty() {
                    steps.push((false, String::new(), next));
                    next += 1;
                } else if spec.chars().all(|c| c.is_ascii_digit()) {
                    steps.push((false, String::new(), spec.parse().unwrap()));
                } else if spec.chars().all(|c| c.is_alphanumeric() || c == '_') {
                    named.push((steps.len(), spec.clone()));
                    steps.push((false, spec, usize::MAX));
                } else {
                    return Err(format!("format specification {{{}}}", spec));
                }
                i = j + 1;
                continue;
            }
            cur.push(cs[i]);
            i += 1;
        }
        if !cur.is_empty() {
            steps.push((true, cur, 0));
        }
        for (l, text, ix) in steps {
            if l {
                self.strs.insert(text.clone());
                pieces.push(Ok(format!("{}.write_str_({:?})", w, text)));
                continue;
            }
            let e = if ix == usize::MAX {
                // named: either name = expr or a captured local
                let mut found = None;
                for r in &rest {
                    if let Expr::Assign(a) = r {
                        if ts(&a.left) == text {
                            found = Some((*a.right).clone());
                        }
                    }
                }
                match found {
                    Some(e) => e,
                    None => return Err("captured format argument".into()),
                }
            } else {
                match rest.get(ix) {
                    Some(Expr::Assign(a)) => (*a.right).clone(),
                    Some(e) => e.clone(),
                    None => return Err("format argument".into()),
                }
            };
            let (nr, t) = strip_ref(&self.ty(cx, &e)?);
            let x = self.expr(&e, cx)?;
            pieces.push(self.disp(w, own, &x, nr, &t));
        }
        let p: R<Vec<String>> = pieces.into_iter().collect();
        let p = p?;
        if p.is_empty() {
            return Ok("fmt_ok()".into());
        }
        let mut o = p[p.len() - 1].clone();
        for q in p[..p.len() - 1].iter().rev() {
            let k = self.tmp();
            o = format!("match {} {{ Ok(_) => {{ {} }} Err(__e{}) => Err(__e{}) }}", q, o, k, k);
        }
        Ok(if p.len() > 1 { format!("({})", o) } else { o })
    }
    fn track_kind(&mut self, a: &[Expr], i: usize, cx: &Cx) -> R<String> {
        let e = a.get(i).ok_or("error kind")?;
        self.expr(e, &cx.off())
    }
    fn track_cond(&mut self, m: &Macro, n: &str, cx: &Cx) -> R<(String, String)> {
        let a = self.macro_args(m)?;
        match n {
            "track_assert" => {
                let c = self.expr(&a[0], &cx.off())?;
                Ok((c, self.track_kind(&a, 1, cx)?))
            }
            "track_assert_eq" | "track_assert_ne" => {
                let l = self.expr(&a[0], &cx.off())?;
                let r = self.expr(&a[1], &cx.off())?;
                let (nl, tl) = strip_ref(&self.ty(cx, &a[0])?);
                let (nr, tr) = strip_ref(&self.ty(cx, &a[1])?);
                let c = self.binop(if n.ends_with("eq") { "==" } else { "!=" }, (&l, nl, &tl), (&r, nr, &tr))?;
                Ok((c, self.track_kind(&a, 2, cx)?))
            }
            _ => Err(format!("{}!", n)),
        }
    }
    fn mac(&mut self, m: &Macro, cx: &Cx) -> R<String> {
        let n = m.path.segments.last().unwrap().ident.to_string();
        match n.as_str() {
            "track" => {
                let a = self.macro_args(m)?;
                self.expr(&a[0], cx)
            }
            _ if cx.tail => self.mac(m, &cx.off()),
            "track_assert" | "track_assert_eq" | "track_assert_ne" => {
                if cx.closure {
                    return Err(format!("{}! inside an inlined expression", n));
                }
                let (c, k) = self.track_cond(m, &n, cx)?;
                Ok(format!("if !({}) {{ return Err({}); }}", c, k))
            }
            "track_panic" => {
                if cx.closure {
                    return Err("track_panic! inside an inlined expression".into());
                }
                let a = self.macro_args(m)?;
                Ok(format!("return Err({})", self.track_kind(&a, 0, cx)?))
            }
            "vec" => {
                if ts(&m.tokens).contains(';') {
                    return Err("vec![x; n]".into());
                }
                let a = self.macro_args(m)?;
                let v: R<Vec<String>> = a.iter().map(|x| self.expr(x, cx)).collect();
                let v = v?;
                let k = self.tmp();
                let mut o = format!("{{ let mut __q{} = Vec::new();\n", k);
                for x in v {
                    o.push_str(&format!("__q{}.push({});\n", k, x));
                }
                o.push_str(&format!("__q{} }}", k));
                Ok(o)
            }
            "assert" | "debug_assert" => {
                let a = self.macro_args(m)?;
                let c = self.expr(&a[0], cx)?;
                let p = self.panic_();
                Ok(format!("if !({}) {}", c, p.replace("diverge()", "diverge_unit();")))
            }
            "assert_eq" | "assert_ne" | "debug_assert_eq" | "debug_assert_ne" => {
                let a = self.macro_args(m)?;
                let l = self.expr(&a[0], cx)?;
                let r = self.expr(&a[1], cx)?;
                let (nl, tl) = strip_ref(&self.ty(cx, &a[0])?);
                let (nr, tr) = strip_ref(&self.ty(cx, &a[1])?);
                let c = self.binop(if n.ends_with("eq") { "==" } else { "!=" }, (&l, nl, &tl), (&r, nr, &tr))?;
                let p = self.panic_();
                Ok(format!("if !({}) {}", c, p.replace("diverge()", "diverge_unit();")))
            }
            "panic" | "unreachable" | "unimplemented" | "todo" => Ok(self.panic_()),
            "write" | "writeln" => {
                let a = self.macro_args(m)?;
                let w = Self::unparen(&a[0]);
                let (nw, tw) = strip_ref(&self.ty(cx, w)?);
                if tw == "std::string::String" {
                    let x = self.expr(w, cx)?;
                    if nw > 0 {
                        return Err("write! to a borrowed string".into());
                    }
                    let k = self.tmp();
                    let body = self.fmt_writes(&format!("__b{}", k), true, &a[1..], n == "writeln", cx)?;
                    return Ok(format!("{{ let mut __b{} = Fmt::of(string_take(&mut {}));\nlet __r{} = {};\n{} = __b{}.into_string();\n__r{} }}", k, x, k, body, x, k, k));
                }
                let x = self.expr(w, cx)?;
                self.fmt_writes(&x, false, &a[1..], n == "writeln", cx)
            }
            "format" => {
                let a = self.macro_args(m)?;
                let k = self.tmp();
                let body = self.fmt_writes(&format!("__b{}", k), true, &a, false, cx)?;
                let p = self.panic_();
                Ok(format!("{{ let mut __b{} = Fmt::buffer();\nmatch {} {{ Ok(_) => {{}} Err(_) => {} }}\n__b{}.into_string() }}", k, body, p, k))
            }
            "matches" => Err("matches!".into()),
            _ => Err(format!("{}!", n)),
        }
    }
}
fn contains_let(e: &Expr) -> bool {
    match e {
        Expr::Let(_) => true,
        Expr::Binary(b) => contains_let(&b.left) || contains_let(&b.right),
        Expr::Paren(p) => contains_let(&p.expr),
        _ => false,
    }
}
/// the samples of a summary, locked
fn is_guard(t: &str) -> bool {
    t.contains("MutexGuard<") && !t.contains("MutexGuard<'_, registry::Gatherer>")
}
fn is_place(x: &str) -> bool {
    x.chars().all(|c| c.is_alphanumeric() || c == '_' || c == '.')
}
fn ensure_semi(s: String) -> String {
    let t = s.trim_end();
    if t.ends_with(';') || t.ends_with('}') || t.is_empty() {
        format!("{}\n", t)
    } else {
        format!("{};\n", t)
    }
}
fn ts_block(b: &Block) -> String {
    quote::quote!(#b).to_string()
}
fn cmp_ty(cmp: &str, _el: &str) -> String {
    cmp.to_string()
}
pub fn short(s: &str) -> String {
    if s.len() > 90 {
        format!("{}…", s.chars().take(90).collect::<String>())
    } else {
        s.to_string()
    }
}
/// drop generic arguments of a printed type
pub fn norm_ty(t: &str) -> String {
    let (_, t) = strip_ref(t);
    match t.find('<') {
        Some(i) if i > 0 => t[..i].trim_end_matches("::").to_string(),
        _ => t,
    }
}
fn same_mod_lifetimes(a: &str, b: &str) -> bool {
    let f = |s: &str| s.split('\'').map(|p| p.trim_start_matches(|c: char| c.is_alphanumeric() || c == '_')).collect::<String>();
    f(a) == f(b)
}
/// top-level generic (or tuple) arguments of a printed type, lifetimes dropped
pub fn type_args(t: &str) -> Vec<String> {
    let (open, close) = if t.starts_with('(') { ('(', ')') } else { ('<', '>') };
    let i = match t.find(open) {
        Some(i) => i,
        None => return vec![],
    };
    let inner = &t[i + 1..t.rfind(close).unwrap_or(t.len())];
    let mut d = 0i32;
    let mut cur = String::new();
    let mut v = vec![];
    for c in inner.chars() {
        match c {
            '<' | '(' | '[' => d += 1,
            '>' | ')' | ']' => d -= 1,
            ',' if d == 0 => {
                v.push(cur.trim().to_string());
                cur.clear();
                continue;
            }
            _ => {}
        }
        cur.push(c);
    }
    if !cur.trim().is_empty() {
        v.push(cur.trim().to_string());
    }
    v.into_iter().filter(|s| !s.starts_with('\'')).collect()
}
pub fn fn_param(f: &FnInfo, ty: &str) -> bool {
    if ty.starts_with("impl Fn") {
        return true;
    }
    for g in &f.generics {
        for p in g.type_params() {
            if p.ident == ty {
                let b: String = p.bounds.iter().map(|b| ts(b)).collect::<Vec<_>>().join(" ");
                let w: String = g.where_clause.as_ref().map(|w| ts(w)).unwrap_or_default();
                if b.contains("Fn") || w.contains(&format!("{} : Fn", p.ident)) {
                    return true;
                }
            }
        }
    }
    false
}
#[allow(dead_code)]
fn _span(e: &Expr) -> proc_macro2::Span {
    e.span()
}
