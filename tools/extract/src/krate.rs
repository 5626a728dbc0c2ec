//! Reading the crate: modules, items, name resolution, the resolver's type table.
use proc_macro2::Span;
use std::collections::{BTreeMap, HashMap};
use std::path::{Path, PathBuf};
use syn::spanned::Spanned;

#[derive(Clone, Debug)]
pub struct TEntry {
    pub kind: String,
    pub ty: String,
    pub adj: String,
    pub callee: String,
    pub selfty: String,
}
pub type Loc = (String, usize, usize, usize, usize);

pub struct Types {
    pub e: HashMap<Loc, Vec<TEntry>>,
    pub p: HashMap<Loc, String>,
}
pub fn norm(c: &str) -> String {
    // drop generic arguments `::<...>` and `<impl T>` wrappers
    let mut o = String::new();
    let b: Vec<char> = c.chars().collect();
    let mut i = 0;
    while i < b.len() {
        if b[i] == ':' && i + 2 < b.len() && b[i + 1] == ':' && b[i + 2] == '<' {
            let rest: String = b[i + 2..].iter().collect();
            if rest.starts_with("<impl ") {
                // keep a marker of the implementing type
                let mut d = 0;
                let mut j = i + 2;
                while j < b.len() {
                    if b[j] == '<' {
                        d += 1
                    }
                    if b[j] == '>' {
                        d -= 1;
                        if d == 0 {
                            break;
                        }
                    }
                    j += 1;
                }
                i = j + 1;
                continue;
            }
            let mut d = 0;
            let mut j = i + 2;
            while j < b.len() {
                if b[j] == '<' {
                    d += 1
                }
                if b[j] == '>' {
                    d -= 1;
                    if d == 0 {
                        break;
                    }
                }
                j += 1;
            }
            i = j + 1;
            continue;
        }
        o.push(b[i]);
        i += 1;
    }
    if let Some(r) = o.strip_prefix("core::") {
        o = format!("std::{}", r);
    }
    if let Some(r) = o.strip_prefix("alloc::") {
        o = format!("std::{}", r);
    }
    o
}
impl Types {
    pub fn load(p: &str) -> Types {
        let mut t = Types { e: HashMap::new(), p: HashMap::new() };
        for l in std::fs::read_to_string(p).expect("types").lines() {
            let f: Vec<&str> = l.split('\t').collect();
            if f.len() < 8 {
                continue;
            }
            let n = |i: usize| f[i].parse::<usize>().unwrap_or(0);
            let loc = (f[1].to_string(), n(2), n(3), n(4), n(5));
            if f[0] == "E" && f.len() >= 11 {
                t.e.entry(loc).or_default().push(TEntry {
                    kind: f[6].into(),
                    ty: f[7].into(),
                    adj: f[8].into(),
                    callee: norm(f[9]),
                    selfty: f[10].into(),
                });
            } else if f[0] == "P" {
                t.p.insert(loc, f[7].to_string());
            }
        }
        t
    }
}

pub struct Module {
    pub path: Vec<String>, // [] for the root
    pub file: String,
    pub uses: HashMap<String, Vec<String>>, // name -> full path ("crate", ...) or ("std", ...)
    pub items: Vec<syn::Item>,
}
pub struct FnInfo {
    pub path: String, // label::Label::new
    pub module: usize,
    pub self_ty: Option<syn::Type>,
    pub generics: Vec<syn::Generics>,
    pub trait_: Option<String>,
    pub sig: syn::Signature,
    pub block: syn::Block,
    pub public: bool,
    pub assoc: HashMap<String, syn::Type>,
}
pub struct Krate {
    pub root: PathBuf,
    pub modules: Vec<Module>,
    pub fns: BTreeMap<String, FnInfo>,
    pub types: Types,
    pub derives: HashMap<String, Vec<String>>, // type path -> derives
    pub local_types: HashMap<String, usize>,   // full path of a crate type -> module index
}

/// Not compiled into the library built here: a `#[cfg]` which is false for it (linux, no test, no feature).
fn is_test(attrs: &[syn::Attribute]) -> bool {
    attrs.iter().any(|a| a.path().is_ident("cfg") && a.parse_args::<syn::Meta>().map_or(false, |m| !cfg_holds(&m)))
}
fn cfg_holds(m: &syn::Meta) -> bool {
    match m {
        syn::Meta::Path(p) => p.is_ident("unix") || p.is_ident("debug_assertions") || p.is_ident("panic"),
        syn::Meta::NameValue(n) => {
            let k = n.path.get_ident().map(|i| i.to_string()).unwrap_or_default();
            let v = &n.value;
            let v = quote::quote!(#v).to_string();
            matches!(
                (k.as_str(), v.trim_matches('"')),
                ("target_os", "linux")
                    | ("target_family", "unix")
                    | ("target_arch", "x86_64")
                    | ("target_pointer_width", "64")
                    | ("target_endian", "little")
                    | ("target_env", "gnu")
                    | ("panic", "unwind")
                    | ("target_has_atomic", "64")
            )
        }
        syn::Meta::List(l) => {
            let v = l
                .parse_args_with(syn::punctuated::Punctuated::<syn::Meta, syn::Token![,]>::parse_terminated)
                .map(|p| p.into_iter().collect::<Vec<_>>())
                .unwrap_or_default();
            if l.path.is_ident("not") {
                v.first().map_or(false, |x| !cfg_holds(x))
            } else if l.path.is_ident("any") {
                v.iter().any(cfg_holds)
            } else {
                v.iter().all(cfg_holds)
            }
        }
    }
}
/// `lazy_static! { static ref NAME: T = e; .. }`: each is the function `NAME() -> T { e }`, whose
/// value does not depend on when it is called
struct Lazy {
    v: Vec<(syn::Ident, syn::Type, syn::Expr)>,
}
impl syn::parse::Parse for Lazy {
    fn parse(i: syn::parse::ParseStream) -> syn::Result<Lazy> {
        let mut v = vec![];
        while !i.is_empty() {
            let _ = i.call(syn::Attribute::parse_outer)?;
            let _: syn::Visibility = i.parse()?;
            let _: syn::Token![static] = i.parse()?;
            let _: syn::Token![ref] = i.parse()?;
            let n: syn::Ident = i.parse()?;
            let _: syn::Token![:] = i.parse()?;
            let t: syn::Type = i.parse()?;
            let _: syn::Token![=] = i.parse()?;
            let e: syn::Expr = i.parse()?;
            let _: syn::Token![;] = i.parse()?;
            v.push((n, t, e));
        }
        Ok(Lazy { v })
    }
}

impl Krate {
    pub fn load(root: &str, types: &str) -> Krate {
        let mut k = Krate {
            root: PathBuf::from(root),
            modules: vec![],
            fns: BTreeMap::new(),
            types: Types::load(types),
            derives: HashMap::new(),
            local_types: HashMap::new(),
        };
        let p = k.root.join("src/lib.rs");
        k.load_file(&p, vec![]);
        for m in 0..k.modules.len() {
            k.collect_types(m);
        }
        for m in 0..k.modules.len() {
            k.collect_fns(m);
        }
        k
    }
    fn load_file(&mut self, p: &Path, path: Vec<String>) {
        let src = match std::fs::read_to_string(p) {
            Ok(s) => s,
            Err(_) => return,
        };
        let f = match syn::parse_file(&src) {
            Ok(f) => f,
            Err(e) => {
                eprintln!("cannot parse {}: {}", p.display(), e);
                std::process::exit(4)
            }
        };
        let rel = p.strip_prefix(&self.root).unwrap().to_string_lossy().to_string();
        self.load_items(f.items, path, rel, p);
    }
    fn load_items(&mut self, items: Vec<syn::Item>, path: Vec<String>, file: String, p: &Path) {
        let mut uses = HashMap::new();
        let mut keep = vec![];
        let mut subs = vec![];
        for it in items {
            match it {
                syn::Item::Use(u) => if !is_test(&u.attrs) { collect_use(&u.tree, vec![], &mut uses) },
                syn::Item::Mod(m) => {
                    if !is_test(&m.attrs) {
                        subs.push(m)
                    }
                }
                syn::Item::Fn(ref f) if is_test(&f.attrs) => {}
                syn::Item::Impl(ref f) if is_test(&f.attrs) => {}
                syn::Item::Struct(ref f) if is_test(&f.attrs) => {}
                syn::Item::Enum(ref f) if is_test(&f.attrs) => {}
                x => keep.push(x),
            }
        }
        self.modules.push(Module { path: path.clone(), file: file.clone(), uses, items: keep });
        for m in subs {
            let mut sp = path.clone();
            sp.push(m.ident.to_string());
            if let Some((_, its)) = m.content {
                self.load_items(its, sp, file.clone(), p);
            } else {
                let dir = self.root.join("src").join(path.join("/"));
                let a = dir.join(format!("{}.rs", m.ident));
                let b = dir.join(format!("{}/mod.rs", m.ident));
                if a.exists() {
                    self.load_file(&a, sp)
                } else {
                    self.load_file(&b, sp)
                }
            }
        }
    }
    fn mpath(&self, m: usize, name: &str) -> String {
        let mut v = self.modules[m].path.clone();
        v.push(name.to_string());
        v.join("::")
    }
    fn collect_types(&mut self, m: usize) {
        let mut add = vec![];
        for it in &self.modules[m].items {
            let (id, attrs) = match it {
                syn::Item::Struct(s) => (&s.ident, &s.attrs),
                syn::Item::Enum(s) => (&s.ident, &s.attrs),
                _ => continue,
            };
            let mut d = vec![];
            for a in attrs {
                if a.path().is_ident("derive") {
                    let _ = a.parse_nested_meta(|mt| {
                        if let Some(s) = mt.path.segments.last() {
                            d.push(s.ident.to_string());
                        }
                        Ok(())
                    });
                }
            }
            add.push((self.mpath(m, &id.to_string()), d));
        }
        for (p, d) in add {
            self.derives.insert(p.clone(), d);
            self.local_types.insert(p, m);
        }
    }
    fn collect_fns(&mut self, m: usize) {
        let mut out = vec![];
        for it in &self.modules[m].items {
            match it {
                syn::Item::Fn(f) => out.push(FnInfo {
                    path: self.mpath(m, &f.sig.ident.to_string()),
                    module: m,
                    self_ty: None,
                    generics: vec![f.sig.generics.clone()],
                    trait_: None,
                    sig: f.sig.clone(),
                    block: (*f.block).clone(),
                    public: !matches!(f.vis, syn::Visibility::Inherited),
                    assoc: HashMap::new(),
                }),
                syn::Item::Macro(x) if x.mac.path.is_ident("lazy_static") && !is_test(&x.attrs) => {
                    let l: Lazy = match x.mac.parse_body() {
                        Ok(l) => l,
                        Err(_) => continue,
                    };
                    for (n, t, e) in l.v {
                        out.push(FnInfo {
                            path: self.mpath(m, &n.to_string()),
                            module: m,
                            self_ty: None,
                            generics: vec![],
                            trait_: None,
                            sig: syn::parse_quote!(fn #n() -> #t),
                            block: syn::Block { brace_token: Default::default(), stmts: vec![syn::Stmt::Expr(e, None)] },
                            public: false,
                            assoc: HashMap::new(),
                        });
                    }
                }
                syn::Item::Impl(i) => {
                    let tp = match self.crate_type(m, &i.self_ty) {
                        Some(t) => t,
                        None => continue,
                    };
                    let tr = i.trait_.as_ref().map(|(_, p, _)| p.segments.last().unwrap().clone());
                    let mut assoc = HashMap::new();
                    for x in &i.items {
                        if let syn::ImplItem::Type(t) = x {
                            assoc.insert(t.ident.to_string(), t.ty.clone());
                        }
                    }
                    for x in &i.items {
                        if let syn::ImplItem::Fn(f) = x {
                            if is_test(&f.attrs) {
                                continue;
                            }
                            let mut name = f.sig.ident.to_string();
                            if let Some(t) = &tr {
                                let tn = t.ident.to_string();
                                if tn == "Debug" {
                                    name = "fmt_debug".into();
                                }
                                if tn == "From" {
                                    let a = quote::quote!(#t).to_string().replace("From <", "").replace('>', "");
                                    name = format!("from_{}", a.trim().rsplit("::").next().unwrap().trim());
                                }
                            }
                            out.push(FnInfo {
                                path: format!("{}::{}", tp, name),
                                module: m,
                                self_ty: Some((*i.self_ty).clone()),
                                generics: vec![i.generics.clone(), f.sig.generics.clone()],
                                trait_: tr.as_ref().map(|t| t.ident.to_string()),
                                sig: f.sig.clone(),
                                block: f.block.clone(),
                                public: tr.is_some() || !matches!(f.vis, syn::Visibility::Inherited),
                                assoc: assoc.clone(),
                            });
                        }
                    }
                }
                _ => {}
            }
        }
        // nested functions become siblings named as rustc names them (parent::name)
        let mut nested = vec![];
        for f in &out {
            for s in &f.block.stmts {
                if let syn::Stmt::Item(syn::Item::Fn(n)) = s {
                    nested.push(FnInfo {
                        path: format!("{}::{}", f.path, n.sig.ident),
                        module: m,
                        self_ty: None,
                        generics: vec![n.sig.generics.clone()],
                        trait_: None,
                        sig: n.sig.clone(),
                        block: (*n.block).clone(),
                        public: false,
                        assoc: HashMap::new(),
                    });
                }
            }
        }
        for f in out.into_iter().chain(nested) {
            self.fns.insert(f.path.clone(), f);
        }
    }
    pub fn crate_type(&self, m: usize, t: &syn::Type) -> Option<String> {
        if let syn::Type::Path(p) = t {
            let r = self.resolve(m, &p.path);
            if let Some(c) = r.strip_prefix("crate::") {
                return Some(c.to_string());
            }
        }
        None
    }
    /// Full path of a (type, constructor or function) path as written in module m.
    pub fn resolve(&self, m: usize, p: &syn::Path) -> String {
        let segs: Vec<String> = p.segments.iter().map(|s| s.ident.to_string()).collect();
        self.resolve_segs(m, segs, 0)
    }
    fn resolve_segs(&self, m: usize, segs: Vec<String>, depth: usize) -> String {
        let md = &self.modules[m];
        let full: Vec<String> = if segs[0] == "crate" || segs[0] == "std" || segs[0] == "core" {
            segs.clone()
        } else if segs[0] == "self" && segs.len() > 1 {
            let mut v = vec!["crate".to_string()];
            v.extend(md.path.clone());
            v.extend(segs[1..].to_vec());
            v
        } else if segs[0] == "super" {
            let mut v = vec!["crate".to_string()];
            v.extend(md.path[..md.path.len().saturating_sub(1)].to_vec());
            v.extend(segs[1..].to_vec());
            v
        } else if let Some(u) = md.uses.get(&segs[0]) {
            let mut v = u.clone();
            v.extend(segs[1..].to_vec());
            v
        } else if self.has_item(m, &segs[0]) {
            let mut v = vec!["crate".to_string()];
            v.extend(md.path.clone());
            v.extend(segs.clone());
            v
        } else if md.path.is_empty() && self.modules.iter().any(|x| x.path.len() == 1 && x.path[0] == segs[0]) {
            let mut v = vec!["crate".to_string()];
            v.extend(segs.clone());
            v
        } else {
            segs.clone()
        };
        let mut full = full;
        if full[0] != "crate" && full[0] != "std" && full[0] != "core" && depth < 4 {
            // edition 2015: use paths start at the crate root
            if self.modules.iter().any(|x| x.path.len() == 1 && x.path[0] == full[0]) || self.has_item(0, &full[0]) {
                full.insert(0, "crate".into());
            } else if md.uses.get(&segs[0]).is_some() && full.len() == 1 {
                if let Some(u) = self.modules[0].uses.get(&full[0]) {
                    let mut v = vec!["crate".to_string()];
                    v.extend(u.clone());
                    full = v;
                }
            }
        }
        if full[0] == "core" {
            full[0] = "std".into()
        }
        if full[0] == "crate" {
            // follow re-exports: find the longest module prefix, then its uses
            for n in (0..full.len()).rev() {
                let mp = &full[1..1 + n.min(full.len() - 1)];
                if let Some(mi) = self.modules.iter().position(|x| x.path == mp) {
                    if full.len() > mp.len() + 1 {
                        let nm = &full[mp.len() + 1];
                        if !self.has_item(mi, nm) {
                            if let Some(u) = self.modules[mi].uses.get(nm) {
                                let mut v = u.clone();
                                if v[0] == "self" {
                                    let mut w = vec!["crate".to_string()];
                                    w.extend(mp.to_vec());
                                    w.extend(v[1..].to_vec());
                                    v = w;
                                } else if v[0] != "crate" && v[0] != "std" {
                                    v.insert(0, "crate".into());
                                }
                                v.extend(full[mp.len() + 2..].to_vec());
                                if depth < 6 && v != full {
                                    return self.resolve_segs(0, v, depth + 1);
                                }
                            }
                        }
                    }
                    break;
                }
            }
        }
        full.join("::")
    }
    fn has_item(&self, m: usize, n: &str) -> bool {
        self.modules[m].items.iter().any(|i| match i {
            syn::Item::Struct(s) => s.ident == n,
            syn::Item::Enum(s) => s.ident == n,
            syn::Item::Fn(s) => s.sig.ident == n,
            syn::Item::Const(s) => s.ident == n,
            syn::Item::Type(s) => s.ident == n,
            syn::Item::Trait(s) => s.ident == n,
            _ => false,
        })
    }
    pub fn loc(&self, m: usize, s: Span) -> Loc {
        let a = s.start();
        let b = s.end();
        (self.modules[m].file.clone(), a.line, a.column, b.line, b.column)
    }
    pub fn entries(&self, m: usize, e: &syn::Expr) -> Vec<TEntry> {
        let mut l = self.loc(m, e.span());
        // the compiler's span of an expression in parentheses includes them
        for _ in 0..4 {
            if let Some(v) = self.types.e.get(&l) {
                return v.clone();
            }
            if l.2 == 0 {
                break;
            }
            l.2 -= 1;
            l.4 += 1;
        }
        vec![]
    }
    pub fn pat_ty(&self, m: usize, i: &syn::Ident) -> Option<String> {
        self.types.p.get(&self.loc(m, i.span())).cloned()
    }
}
fn collect_use(t: &syn::UseTree, pre: Vec<String>, out: &mut HashMap<String, Vec<String>>) {
    match t {
        syn::UseTree::Path(p) => {
            let mut v = pre;
            v.push(p.ident.to_string());
            collect_use(&p.tree, v, out)
        }
        syn::UseTree::Name(n) => {
            let mut v = pre;
            let mut name = n.ident.to_string();
            if name == "self" {
                name = v.last().cloned().unwrap_or_default();
            } else {
                v.push(name.clone());
            }
            if v.len() == 1 && v[0] == name && name == "std" {
                return;
            }
            out.insert(name, v);
        }
        syn::UseTree::Rename(r) => {
            let mut v = pre;
            if r.ident != "self" {
                v.push(r.ident.to_string());
            }
            out.insert(r.rename.to_string(), v);
        }
        syn::UseTree::Group(g) => {
            for x in &g.items {
                collect_use(x, pre.clone(), out)
            }
        }
        syn::UseTree::Glob(_) => {}
    }
}
