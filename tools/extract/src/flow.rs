//! Where control leaves a piece of source.
use quote::ToTokens;
use syn::visit::Visit;
use syn::*;

/// what leaves the piece: `return`/`?` (and the macros which return), and `break`/`continue`
/// aimed at a loop outside it
#[derive(Default)]
pub struct Exits {
    pub ret: bool,
    pub brk: bool,
    depth: usize,
}
impl<'a> Visit<'a> for Exits {
    fn visit_expr_closure(&mut self, _: &'a ExprClosure) {}
    fn visit_item(&mut self, _: &'a Item) {}
    fn visit_expr_return(&mut self, i: &'a ExprReturn) {
        self.ret = true;
        syn::visit::visit_expr_return(self, i);
    }
    fn visit_expr_try(&mut self, i: &'a ExprTry) {
        self.ret = true;
        syn::visit::visit_expr_try(self, i);
    }
    fn visit_expr_break(&mut self, i: &'a ExprBreak) {
        if self.depth == 0 || i.label.is_some() {
            self.brk = true;
        }
        syn::visit::visit_expr_break(self, i);
    }
    fn visit_expr_continue(&mut self, i: &'a ExprContinue) {
        if self.depth == 0 || i.label.is_some() {
            self.brk = true;
        }
    }
    fn visit_expr_while(&mut self, i: &'a ExprWhile) {
        self.visit_expr(&i.cond);
        self.depth += 1;
        self.visit_block(&i.body);
        self.depth -= 1;
    }
    fn visit_expr_loop(&mut self, i: &'a ExprLoop) {
        self.depth += 1;
        self.visit_block(&i.body);
        self.depth -= 1;
    }
    fn visit_expr_for_loop(&mut self, i: &'a ExprForLoop) {
        self.visit_expr(&i.expr);
        self.depth += 1;
        self.visit_block(&i.body);
        self.depth -= 1;
    }
    fn visit_macro(&mut self, m: &'a Macro) {
        let n = m.path.segments.last().unwrap().ident.to_string();
        if n.starts_with("track_assert") || n == "track_panic" {
            self.ret = true;
        }
        use syn::parse::Parser;
        let p = punctuated::Punctuated::<Expr, Token![,]>::parse_terminated;
        match p.parse2(m.tokens.clone()) {
            Ok(v) => {
                for e in v {
                    let mut x = Exits { depth: self.depth, ..Exits::default() };
                    x.visit_expr(&e);
                    self.ret |= x.ret;
                    self.brk |= x.brk;
                }
            }
            Err(_) => {
                let s = m.tokens.to_string();
                if s.contains('?') || s.contains("return") {
                    self.ret = true;
                }
            }
        }
    }
}
pub fn exits_block(b: &Block) -> Exits {
    let mut x = Exits::default();
    x.visit_block(b);
    x
}
pub fn exits_expr(e: &Expr) -> Exits {
    let mut x = Exits::default();
    x.visit_expr(e);
    x
}
pub fn exits_stmts(ss: &[Stmt]) -> Exits {
    let mut x = Exits::default();
    for s in ss {
        x.visit_stmt(s);
    }
    x
}
/// control never reaches the end of these statements because it returns
pub fn returns(ss: &[Stmt]) -> bool {
    match ss.last() {
        Some(Stmt::Expr(e, _)) => returns_expr(e),
        Some(Stmt::Macro(m)) => m.mac.path.segments.last().unwrap().ident == "track_panic",
        _ => false,
    }
}
pub fn returns_expr(e: &Expr) -> bool {
    match e {
        Expr::Return(_) => true,
        Expr::Macro(m) => m.mac.path.segments.last().unwrap().ident == "track_panic",
        Expr::Paren(p) => returns_expr(&p.expr),
        Expr::Group(p) => returns_expr(&p.expr),
        Expr::Block(b) => returns(&b.block.stmts),
        Expr::If(i) => returns(&i.then_branch.stmts) && i.else_branch.as_ref().map_or(false, |(_, e)| returns_expr(e)),
        Expr::Match(m) => m.arms.iter().all(|a| returns_expr(&a.body)),
        _ => false,
    }
}
/// names a pattern binds
pub fn pat_names(p: &Pat) -> Vec<String> {
    struct N(Vec<String>);
    impl<'a> Visit<'a> for N {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            self.0.push(i.ident.to_string());
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut n = N(vec![]);
    n.visit_pat(p);
    n.0
}
/// one of the names occurs in the statements
pub fn mentions(ss: &[Stmt], names: &[String]) -> bool {
    fn walk(ts: proc_macro2::TokenStream, n: &[String]) -> bool {
        ts.into_iter().any(|t| match t {
            proc_macro2::TokenTree::Group(g) => walk(g.stream(), n),
            proc_macro2::TokenTree::Ident(i) => n.contains(&i.to_string()),
            proc_macro2::TokenTree::Literal(l) => {
                let l = l.to_string();
                l.starts_with('"') && n.iter().any(|x| l.contains(&format!("{{{}", x)))
            }
            _ => false,
        })
    }
    ss.iter().any(|s| walk(s.to_token_stream(), names))
}
/// names bound by the `let` statements of a list (not inside nested blocks)
pub fn let_names(ss: &[Stmt]) -> Vec<String> {
    ss.iter().flat_map(|s| if let Stmt::Local(l) = s { pat_names(&l.pat) } else { vec![] }).collect()
}
/// statements which may be written out twice (no loop, closure or comparison numbered by position)
pub fn copyable(ss: &[Stmt]) -> bool {
    struct C(bool);
    impl<'a> Visit<'a> for C {
        fn visit_expr_closure(&mut self, _: &'a ExprClosure) {
            self.0 = false
        }
        fn visit_expr_while(&mut self, _: &'a ExprWhile) {
            self.0 = false
        }
        fn visit_expr_loop(&mut self, _: &'a ExprLoop) {
            self.0 = false
        }
        fn visit_expr_for_loop(&mut self, _: &'a ExprForLoop) {
            self.0 = false
        }
        fn visit_expr_method_call(&mut self, m: &'a ExprMethodCall) {
            if ["iter", "into_iter", "sort", "dedup", "sort_by", "collect", "sum", "fold", "binary_search_by"].iter().any(|n| m.method == n) {
                self.0 = false
            }
            syn::visit::visit_expr_method_call(self, m);
        }
    }
    let mut c = C(true);
    for s in ss {
        c.visit_stmt(s);
    }
    c.0
}
fn unparen(e: &Expr) -> &Expr {
    match e {
        Expr::Paren(p) => unparen(&p.expr),
        Expr::Group(p) => unparen(&p.expr),
        _ => e,
    }
}
fn simple(e: &Expr) -> bool {
    match unparen(e) {
        Expr::Path(_) | Expr::Lit(_) | Expr::Closure(_) => true,
        Expr::Field(f) => simple(&f.base),
        Expr::Reference(r) => simple(&r.expr),
        Expr::Unary(u) => matches!(u.op, UnOp::Deref(_)) && simple(&u.expr),
        _ => false,
    }
}
/// the `?` evaluated first, when nothing but names and literals is evaluated before it
pub fn first_try(e: &Expr) -> Option<ExprTry> {
    if !exits_expr(e).ret {
        return None;
    }
    fn list<'a>(it: impl Iterator<Item = &'a Expr>) -> Option<ExprTry> {
        for x in it {
            if let Some(t) = first_try(x) {
                return Some(t);
            }
            if !simple(x) {
                return None;
            }
        }
        None
    }
    match e {
        Expr::Try(t) => match first_try(&t.expr) {
            Some(i) => Some(i),
            None if exits_expr(&t.expr).ret => None,
            None => Some(t.clone()),
        },
        Expr::Paren(p) => first_try(&p.expr),
        Expr::Group(p) => first_try(&p.expr),
        Expr::Reference(r) => first_try(&r.expr),
        Expr::Unary(u) => first_try(&u.expr),
        Expr::Field(f) => first_try(&f.base),
        Expr::Cast(c) => first_try(&c.expr),
        Expr::MethodCall(m) => list(std::iter::once(&*m.receiver).chain(m.args.iter())),
        Expr::Call(c) => list(c.args.iter()),
        Expr::Tuple(c) => list(c.elems.iter()),
        Expr::Struct(c) if c.rest.is_none() => list(c.fields.iter().map(|f| &f.expr)),
        Expr::Binary(b) if !matches!(b.op, BinOp::And(_) | BinOp::Or(_)) => list([&*b.left, &*b.right].into_iter()),
        Expr::Index(b) => list([&*b.expr, &*b.index].into_iter()),
        Expr::Assign(a) if simple(&a.left) => first_try(&a.right),
        Expr::If(i) => {
            if let Expr::Let(l) = &*i.cond {
                first_try(&l.expr)
            } else {
                first_try(&i.cond)
            }
        }
        Expr::Match(m) => first_try(&m.expr),
        Expr::ForLoop(f) => first_try(&f.expr),
        Expr::Return(r) => r.expr.as_ref().and_then(|e| first_try(e)),
        Expr::Macro(m) if m.mac.path.segments.last().unwrap().ident == "track" => None,
        _ => None,
    }
}
/// `loop { match E { P => body, _ => break } }` and its relatives, as `while let P = E { body }`
pub fn as_while(l: &ExprLoop) -> Option<ExprWhile> {
    let is_break = |b: &[Stmt]| b.len() == 1 && matches!(&b[0], Stmt::Expr(Expr::Break(k), _) if k.expr.is_none() && k.label.is_none());
    let brk_expr = |e: &Expr| match unparen(e) {
        Expr::Break(k) => k.expr.is_none() && k.label.is_none(),
        Expr::Block(b) => b.label.is_none() && is_break(&b.block.stmts),
        _ => false,
    };
    if l.label.is_some() {
        return None;
    }
    let wl = |pat: &Pat, e: &Expr, body: Block| ExprWhile {
        attrs: vec![],
        label: None,
        while_token: Default::default(),
        cond: Box::new(Expr::Let(ExprLet { attrs: vec![], let_token: Default::default(), pat: Box::new(pat.clone()), eq_token: Default::default(), expr: Box::new(e.clone()) })),
        body,
    };
    match l.body.stmts.first()? {
        Stmt::Expr(Expr::Match(m), _) if l.body.stmts.len() == 1 && m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => {
            let (p, q) = (&m.arms[0], &m.arms[1]);
            // the arms of two-variant types exclude each other whatever their order
            let (go, stop) = if brk_expr(&q.body) { (p, q) } else { (q, p) };
            if !brk_expr(&stop.body) || brk_expr(&go.body) {
                return None;
            }
            let plain = |p: &Pat| match p {
                Pat::Wild(_) => true,
                Pat::Ident(i) => i.ident == "None",
                Pat::TupleStruct(t) => t.path.segments.last().unwrap().ident == "Err" && t.elems.len() == 1 && matches!(t.elems[0], Pat::Wild(_)),
                Pat::Path(p) => p.path.segments.last().unwrap().ident == "None",
                _ => false,
            };
            if !plain(&stop.pat) || (matches!(stop.pat, Pat::Wild(_)) && std::ptr::eq(stop, p)) {
                return None;
            }
            let body = match &*go.body {
                Expr::Block(b) if b.label.is_none() => b.block.clone(),
                e => Block { brace_token: Default::default(), stmts: vec![Stmt::Expr(e.clone(), Some(Default::default()))] },
            };
            Some(wl(&go.pat, &m.expr, body))
        }
        // let x = match E { P => x, _ => break }; rest
        Stmt::Local(lo) => {
            let i = lo.init.as_ref()?;
            let rest = Block { brace_token: Default::default(), stmts: l.body.stmts[1..].to_vec() };
            if let Some((_, d)) = &i.diverge {
                if brk_expr(d) {
                    return Some(wl(&lo.pat, &i.expr, rest));
                }
                return None;
            }
            let m = match unparen(&i.expr) {
                Expr::Match(m) if m.arms.len() == 2 && m.arms.iter().all(|a| a.guard.is_none()) => m,
                _ => return None,
            };
            let (go, stop) = (&m.arms[0], &m.arms[1]);
            if !brk_expr(&stop.body) {
                return None;
            }
            // Some(x) => x, bound to a plain name
            let (t, inner) = match &go.pat {
                Pat::TupleStruct(t) if t.elems.len() == 1 => (t, &t.elems[0]),
                _ => return None,
            };
            match (inner, unparen(&go.body)) {
                (Pat::Ident(i), Expr::Path(p)) if p.path.is_ident(&i.ident) => {}
                _ => return None,
            }
            let mut t2 = t.clone();
            t2.elems.clear();
            t2.elems.push(match &lo.pat {
                Pat::Type(t) => (*t.pat).clone(),
                p => p.clone(),
            });
            Some(wl(&Pat::TupleStruct(t2), &m.expr, rest))
        }
        // if !c { break; } rest
        Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && is_break(&i.then_branch.stmts) && !matches!(*i.cond, Expr::Let(_)) => {
            let rest = Block { brace_token: Default::default(), stmts: l.body.stmts[1..].to_vec() };
            let cond: Expr = match unparen(&i.cond) {
                Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => (*u.expr).clone(),
                _ => Expr::Unary(ExprUnary { attrs: vec![], op: UnOp::Not(Default::default()), expr: i.cond.clone() }),
            };
            Some(ExprWhile { attrs: vec![], label: None, while_token: Default::default(), cond: Box::new(cond), body: rest })
        }
        _ => None,
    }
}
/// the names a body binds, in the order of the source
pub fn locals(b: &Block) -> Vec<String> {
    struct N(Vec<String>);
    impl<'a> Visit<'a> for N {
        fn visit_pat_ident(&mut self, i: &'a PatIdent) {
            let n = i.ident.to_string();
            if !n.starts_with(|c: char| c.is_uppercase()) {
                self.0.push(n);
            }
            syn::visit::visit_pat_ident(self, i);
        }
    }
    let mut n = N(vec![]);
    n.visit_block(b);
    n.0
}
