//! rustc driver: compiles a crate like rustc and dumps, for every expression written in the
//! crate's source, its type and (for calls) the resolved callee.  One line per fact, TAB separated:
//!   E file l0 c0 l1 c1 kind type adjusted_type callee self_type
//!   P file l0 c0 l1 c1 binding type
#![feature(rustc_private)]
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir as hir;
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::ty::{self, TyCtxt};
use std::fmt::Write as _;

struct Cb;
struct V<'tcx> {
    tcx: TyCtxt<'tcx>,
    tr: &'tcx ty::TypeckResults<'tcx>,
    out: String,
}
impl<'tcx> V<'tcx> {
    fn loc(&self, sp: rustc_span::Span) -> Option<String> {
        if sp.from_expansion() {
            return None;
        }
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let hi = sm.lookup_char_pos(sp.hi());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        Some(format!(
            "{}\t{}\t{}\t{}\t{}",
            name, lo.line, lo.col.0, hi.line, hi.col.0
        ))
    }
}
fn clean(s: String) -> String {
    s.replace('\t', " ").replace('\n', " ")
}
impl<'tcx> Visitor<'tcx> for V<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::OnlyBodies;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_pat(&mut self, p: &'tcx hir::Pat<'tcx>) {
        if let hir::PatKind::Binding(_, _, id, _) = p.kind {
            if let Some(l) = self.loc(id.span) {
                if let Some(t) = self.tr.node_type_opt(p.hir_id) {
                    let _ = writeln!(self.out, "P\t{}\t{}\t{}", l, id.name, clean(t.to_string()));
                }
            }
        }
        intravisit::walk_pat(self, p)
    }
    fn visit_expr(&mut self, e: &'tcx hir::Expr<'tcx>) {
        if let Some(l) = self.loc(e.span) {
            let t = self.tr.expr_ty_opt(e).map(|t| t.to_string()).unwrap_or_default();
            let at = self.tr.expr_ty_adjusted_opt(e).map(|t| t.to_string()).unwrap_or_default();
            let (kind, callee, selfty) = match &e.kind {
                hir::ExprKind::MethodCall(seg, ..) => {
                    let d = self.tr.type_dependent_def_id(e.hir_id);
                    let args = self.tr.node_args(e.hir_id);
                    let st = args.types().next().map(|t| t.to_string()).unwrap_or_default();
                    (
                        format!("method:{}", seg.ident.name),
                        d.map(|d| self.tcx.def_path_str(d)).unwrap_or_default(),
                        st,
                    )
                }
                hir::ExprKind::Path(q) => {
                    let r = self.tr.qpath_res(q, e.hir_id);
                    let args = self.tr.node_args(e.hir_id);
                    let st = args.types().next().map(|t| t.to_string()).unwrap_or_default();
                    match r {
                        hir::def::Res::Def(k, d) => (
                            format!("path:{:?}", k).split('(').next().unwrap().to_string(),
                            self.tcx.def_path_str(d),
                            st,
                        ),
                        hir::def::Res::Local(_) => ("local".into(), String::new(), String::new()),
                        _ => ("path".into(), String::new(), String::new()),
                    }
                }
                hir::ExprKind::Call(..) => ("call".into(), String::new(), String::new()),
                hir::ExprKind::Binary(..) | hir::ExprKind::AssignOp(..) => {
                    ("binary".into(), String::new(), String::new())
                }
                hir::ExprKind::Closure(..) => ("closure".into(), String::new(), String::new()),
                _ => ("other".into(), String::new(), String::new()),
            };
            let _ = writeln!(
                self.out,
                "E\t{}\t{}\t{}\t{}\t{}\t{}",
                l,
                kind,
                clean(t),
                clean(at),
                clean(callee),
                clean(selfty)
            );
        }
        intravisit::walk_expr(self, e)
    }
}
impl rustc_driver_impl::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> rustc_driver_impl::Compilation {
        if let Ok(p) = std::env::var("PMX_OUT") {
            let mut out = String::new();
            for d in tcx.hir_body_owners() {
                if tcx.is_typeck_child(d.to_def_id()) {
                    continue; // closures are visited inside their parent
                }
                let body = tcx.hir_body_owned_by(d);
                let mut v = V { tcx, tr: tcx.typeck(d), out: String::new() };
                v.visit_body(body);
                out.push_str(&v.out);
            }
            std::fs::write(p, out).unwrap();
        }
        rustc_driver_impl::Compilation::Continue
    }
}
fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // used as RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of the real rustc
    if args.len() > 1 && args[1].contains("rustc") {
        args.remove(1);
    }
    if args.iter().any(|a| a == "--crate-name") && args.iter().any(|a| a == "prometrics") {
        rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
    } else {
        struct N;
        impl rustc_driver_impl::Callbacks for N {}
        rustc_driver_impl::compiler_entrypoint(&args, &mut N);
    }
}
