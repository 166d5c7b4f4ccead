//! Fact extractor: a rustc driver that dumps, as JSON, the type-checked MIR of every
//! function body of the workspace crates (resolved callees, evaluated constants, named
//! fields and variants), for the analyses in /verif/analysis.
//! Injected with RUSTC_WORKSPACE_WRAPPER; output goes to $SEAMFACTS_OUT/<crate>-<kind>.json.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_lint_defs;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod json;
use json::J;
use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_interface::interface::{Compiler, Config};
use rustc_middle::mir::{self, interpret::{GlobalAlloc, Scalar, AllocId}, ConstValue, ProjectionElem, Operand, Rvalue, StatementKind, TerminatorKind};
use rustc_middle::ty::{self, Ty, TyCtxt, TypingEnv, print::{with_no_trimmed_paths, with_resolve_crate_name}};
use rustc_span::Span;
use std::collections::{BTreeMap, HashSet};

struct Cb;
impl Callbacks for Cb {
    fn config(&mut self, cfg: &mut Config) {
        cfg.opts.unstable_opts.mir_opt_level = Some(0);
        cfg.opts.lint_cap = Some(rustc_lint_defs::Level::Allow);
    }
    fn after_crate_root_parsing(&mut self, _c: &Compiler, krate: &mut rustc_ast::Crate) -> Compilation {
        // The tree's own toolchain still has feature(box_patterns); this one has removed
        // it.  The attribute is dropped (the source uses no box pattern: if it ever did,
        // compilation here fails and the check reports an error instead of a verdict).
        krate.attrs.retain(|a| {
            if !a.has_name(rustc_span::Symbol::intern("feature")) { return true; }
            let only = a.meta_item_list().map(|l| l.iter().all(|i| i.has_name(rustc_span::Symbol::intern("box_patterns")))).unwrap_or(false);
            !only
        });
        Compilation::Continue
    }
    fn after_analysis<'tcx>(&mut self, _c: &Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(dir) = std::env::var("SEAMFACTS_OUT") { dump(tcx, &dir); }
        Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As a workspace wrapper: argv = [driver, /path/to/rustc, args...]
    if args.len() > 1 && args[1].ends_with("rustc") { args.remove(1); }
    rustc_driver_impl::catch_with_exit_code(|| rustc_driver_impl::compiler_entrypoint(&args, &mut Cb))
}

struct Cx<'tcx> { tcx: TyCtxt<'tcx>, types: BTreeMap<String, J>, adts: BTreeMap<String, J>, seen: HashSet<String>, env: TypingEnv<'tcx> }

fn path(tcx: TyCtxt<'_>, d: DefId) -> String { with_no_trimmed_paths!(with_resolve_crate_name!(tcx.def_path_str(d))) }
fn uid(tcx: TyCtxt<'_>, d: DefId) -> String { format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose()) }
fn tystr(t: Ty<'_>) -> String { with_no_trimmed_paths!(with_resolve_crate_name!(t.to_string())) }

fn span_j(tcx: TyCtxt<'_>, sp: Span) -> J {
    let s0 = sp.source_callsite();
    let lo = tcx.sess.source_map().lookup_char_pos(s0.lo());
    let name = format!("{}", lo.file.name.prefer_local_unconditionally());
    let mac = if sp.from_expansion() { match sp.ctxt().outer_expn_data().kind { rustc_span::ExpnKind::Macro(_, n) => n.to_string(), rustc_span::ExpnKind::Desugaring(d) => format!("desugar:{:?}", d), _ => "?".into() } } else { String::new() };
    J::A(vec![J::S(name), J::I(lo.line as i128), J::S(mac)])
}

impl<'tcx> Cx<'tcx> {
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        let s = tystr(t);
        if self.seen.insert(s.clone()) {
            let j = self.ty_info(t);
            self.types.insert(s.clone(), j);
        }
        J::S(s)
    }
    fn ty_info(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match t.kind() {
            ty::Adt(def, args) => {
                let p = path(tcx, def.did());
                if !self.adts.contains_key(&p) {
                    self.adts.insert(p.clone(), J::Null);
                    let mut vs = vec![];
                    let discrs: Vec<(usize, u128)> = if def.is_enum() { def.discriminants(tcx).map(|(i, d)| (i.as_usize(), d.val)).collect() } else { vec![(0, 0)] };
                    let few = def.variants().len() <= 64;
                    for (i, v) in def.variants().iter_enumerated() {
                        let local = def.did().is_local() || tcx.crate_name(def.did().krate).as_str() == "seam";
                        let fields = if few { v.fields.iter().map(|f| {
                            let fty = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                            J::A(vec![J::S(f.name.to_string()), if local { self.ty(fty) } else { J::S(tystr(fty)) }])
                        }).collect() } else { vec![] };
                        vs.push(J::O(vec![("name", J::S(v.name.to_string())), ("discr", J::I(discrs.get(i.as_usize()).map(|x| x.1).unwrap_or(0) as i128)), ("fields", J::A(fields))]));
                    }
                    self.adts.insert(p.clone(), J::O(vec![("enum", J::B(def.is_enum())), ("variants", J::A(vs)), ("box", J::B(def.is_box())), ("krate", J::S(tcx.crate_name(def.did().krate).to_string()))]));
                }
                let a = args.types().map(|x| self.ty(x)).collect();
                J::O(vec![("k", J::s("adt")), ("path", J::S(p)), ("args", J::A(a))])
            }
            ty::Ref(_, x, m) => J::O(vec![("k", J::s("ref")), ("mut", J::B(m.is_mut())), ("t", self.ty(*x))]),
            ty::RawPtr(x, m) => J::O(vec![("k", J::s("ptr")), ("mut", J::B(m.is_mut())), ("t", self.ty(*x))]),
            ty::Slice(x) => J::O(vec![("k", J::s("slice")), ("t", self.ty(*x))]),
            ty::Array(x, n) => J::O(vec![("k", J::s("array")), ("t", self.ty(*x)), ("n", n.try_to_target_usize(tcx).map(|n| J::I(n as i128)).unwrap_or(J::Null))]),
            ty::Tuple(l) => { let a = l.iter().map(|x| self.ty(x)).collect(); J::O(vec![("k", J::s("tuple")), ("args", J::A(a))]) }
            ty::Closure(d, a) => {
                let up = a.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                J::O(vec![("k", J::s("closure")), ("path", J::S(uid(tcx, *d))), ("upvars", J::A(up))])
            }
            ty::FnDef(d, _) => J::O(vec![("k", J::s("fndef")), ("path", J::S(path(tcx, *d))), ("uid", J::S(uid(tcx, *d)))]),
            ty::FnPtr(..) => J::O(vec![("k", J::s("fnptr"))]),
            ty::Dynamic(p, _) => J::O(vec![("k", J::s("dyn")), ("trait", p.principal_def_id().map(|d| J::S(path(tcx, d))).unwrap_or(J::Null))]),
            ty::Param(p) => J::O(vec![("k", J::s("param")), ("name", J::S(p.name.to_string()))]),
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => J::O(vec![("k", J::s("prim"))]),
            _ => J::O(vec![("k", J::s("other"))]),
        }
    }

    // ---- constants -------------------------------------------------------
    fn konst(&mut self, c: &mir::ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        if let ty::FnDef(d, a) = t.kind() { return J::A(vec![J::s("fn"), self.callee(*d, a.skip_binder())]); }
        let tj = self.ty(t);
        let named = if let mir::Const::Unevaluated(u, _) = c.const_ { if u.promoted.is_none() { J::S(path(self.tcx, u.def)) } else { J::Null } } else { J::Null };
        let v = match c.const_.eval(self.tcx, self.env, c.span) { Ok(v) => self.cval(v, t, 0), Err(_) => J::A(vec![J::s("opaque"), J::S(format!("{:?}", c.const_))]) };
        J::A(vec![J::s("k"), tj, v, named])
    }
    fn layout_size(&self, t: Ty<'tcx>) -> Option<(u64, bool)> {
        self.tcx.layout_of(self.env.as_query_input(t)).ok().map(|l| (l.size.bytes(), l.is_sized()))
    }
    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: u32) -> J {
        if depth > 6 { return J::A(vec![J::s("opaque"), J::s("depth")]); }
        let tcx = self.tcx;
        match v {
            ConstValue::ZeroSized => J::A(vec![J::s("zst"), J::S(tystr(t))]),
            ConstValue::Scalar(Scalar::Int(i)) => self.int(i.to_bits(i.size()), t),
            ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                let (prov, off) = p.into_raw_parts();
                let inner = match t.kind() { ty::Ref(_, x, _) | ty::RawPtr(x, _) => *x, _ => return J::A(vec![J::s("opaque"), J::s("ptr")]) };
                self.mem(prov.alloc_id(), off.bytes(), inner, None, depth + 1)
            }
            ConstValue::Slice { alloc_id, meta } => {
                let inner = match t.kind() { ty::Ref(_, x, _) | ty::RawPtr(x, _) => *x, _ => return J::A(vec![J::s("opaque"), J::s("slice")]) };
                self.mem(alloc_id, 0, inner, Some(meta), depth + 1)
            }
            ConstValue::Indirect { alloc_id, offset } => {
                if let ty::Ref(..) | ty::Array(..) | ty::Int(_) | ty::Uint(_) | ty::Bool | ty::Char = t.kind() { return self.mem(alloc_id, offset.bytes(), t, None, depth + 1); }
                match tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    Some(d) => {
                        let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                        let vn = match (t.kind(), d.variant) { (ty::Adt(def, _), Some(i)) if def.is_enum() => J::S(def.variant(i).name.to_string()), _ => J::Null };
                        J::A(vec![J::s("adt"), J::S(tystr(t)), vn, J::A(fs)])
                    }
                    None => J::A(vec![J::s("opaque"), J::S(tystr(t))]),
                }
            }
        }
    }
    fn int(&self, bits: u128, t: Ty<'tcx>) -> J {
        match t.kind() {
            ty::Bool => J::A(vec![J::s("bool"), J::B(bits != 0)]),
            ty::Char => J::A(vec![J::s("char"), J::S(char::from_u32(bits as u32).map(|c| c.to_string()).unwrap_or_default())]),
            ty::Int(it) => { let w = it.bit_width().unwrap_or(64); let sh = 128 - w as u32; J::A(vec![J::s("int"), J::I(((bits << sh) as i128) >> sh)]) }
            ty::Uint(_) => J::A(vec![J::s("int"), J::I(bits as i128)]),
            ty::Float(_) => J::A(vec![J::s("float"), J::S(bits.to_string())]),
            ty::Adt(def, _) if def.is_enum() => {
                for (i, d) in def.discriminants(self.tcx) { if d.val == bits { return J::A(vec![J::s("adt"), J::S(tystr(t)), J::S(def.variant(i).name.to_string()), J::A(vec![])]); } }
                J::A(vec![J::s("opaque"), J::S(tystr(t))])
            }
            _ => J::A(vec![J::s("bits"), J::S(tystr(t)), J::I(bits as i128)]),
        }
    }
    fn mem(&mut self, a: AllocId, off: u64, t: Ty<'tcx>, meta: Option<u64>, depth: u32) -> J {
        let tcx = self.tcx;
        if depth > 8 { return J::A(vec![J::s("opaque"), J::s("depth")]); }
        let alloc = match tcx.try_get_global_alloc(a) {
            Some(GlobalAlloc::Memory(m)) => m,
            Some(GlobalAlloc::Static(d)) => return J::A(vec![J::s("static"), J::S(path(tcx, d))]),
            Some(GlobalAlloc::Function { instance }) => return J::A(vec![J::s("fnptr"), J::S(uid(tcx, instance.def_id())), J::S(path(tcx, instance.def_id()))]),
            _ => return J::A(vec![J::s("opaque"), J::s("alloc")]),
        };
        let al = alloc.inner();
        let bytes = |o: u64, n: u64| -> Option<Vec<u8>> { if (o + n) as usize <= al.len() { Some(al.inspect_with_uninit_and_ptr_outside_interpreter(o as usize..(o + n) as usize).to_vec()) } else { None } };
        match t.kind() {
            ty::Str => { let n = meta.unwrap_or(0); match bytes(off, n).and_then(|b| String::from_utf8(b).ok()) { Some(s) => J::A(vec![J::s("str"), J::S(s)]), None => J::A(vec![J::s("opaque"), J::s("str")]) } }
            ty::Slice(e) | ty::Array(e, _) => {
                let n = match t.kind() { ty::Array(_, n) => n.try_to_target_usize(tcx).unwrap_or(0), _ => meta.unwrap_or(0) };
                if let ty::Uint(ty::UintTy::U8) = e.kind() {
                    return match bytes(off, n) { Some(b) => J::A(vec![J::s("bytes"), J::A(b.into_iter().map(|x| J::I(x as i128)).collect())]), None => J::A(vec![J::s("opaque"), J::s("bytes")]) };
                }
                let Some((sz, _)) = self.layout_size(*e) else { return J::A(vec![J::s("opaque"), J::s("layout")]) };
                if n > 4096 { return J::A(vec![J::s("opaque"), J::s("long")]); }
                J::A(vec![J::s("array"), J::A((0..n).map(|i| self.mem(a, off + i * sz, *e, None, depth + 1)).collect())])
            }
            ty::Ref(_, x, _) | ty::RawPtr(x, _) => {
                let prov = al.provenance().ptrs().get(&rustc_abi::Size::from_bytes(off)).copied();
                let Some(p) = prov else { return J::A(vec![J::s("opaque"), J::s("noprov")]) };
                let addr = bytes(off, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())).unwrap_or(0);
                let unsized_ = matches!(x.kind(), ty::Str | ty::Slice(_));
                let meta = if unsized_ { bytes(off + 8, 8).map(|b| u64::from_le_bytes(b.try_into().unwrap())) } else { None };
                self.mem(p.alloc_id(), addr, *x, meta, depth + 1)
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) => {
                let Some((sz, _)) = self.layout_size(t) else { return J::A(vec![J::s("opaque"), J::s("layout")]) };
                match bytes(off, sz) { Some(b) => { let mut v: u128 = 0; for (i, x) in b.iter().enumerate() { v |= (*x as u128) << (8 * i); } self.int(v, t) } None => J::A(vec![J::s("opaque"), J::s("oob")]) }
            }
            _ => self.cval(ConstValue::Indirect { alloc_id: a, offset: rustc_abi::Size::from_bytes(off) }, t, depth + 1),
        }
    }

    // ---- callees ---------------------------------------------------------
    fn callee(&mut self, d: DefId, a: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let a = tcx.erase_and_anonymize_regions(a);
        let mut o = vec![("path", J::S(path(tcx, d))), ("krate", J::S(tcx.crate_name(d.krate).to_string()))];
        let ga: Vec<J> = a.types().map(|t| self.ty(t)).collect();
        o.push(("targs", J::A(ga)));
        o.push(("uid", J::S(uid(tcx, d))));
        if let Some(tr) = tcx.trait_of_assoc(d) { o.push(("trait", J::S(path(tcx, tr)))); }
        if let DefKind::Ctor(..) = tcx.def_kind(d) { o.push(("ctor", J::B(true))); }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(d).skip_binder();
            if !sig.safety().is_safe() { o.push(("unsafe", J::B(true))); }
            if tcx.is_const_fn(d) { o.push(("const", J::B(true))); }
        }
        match ty::Instance::try_resolve(tcx, self.env, d, a) {
            Ok(Some(i)) => {
                let rd = i.def_id();
                let kind = match i.def { ty::InstanceKind::Item(_) => "item", ty::InstanceKind::Virtual(..) => "virtual", ty::InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. }) => "closure_once", ty::InstanceKind::Shim(ty::ShimKind::Clone(..)) => "clone", ty::InstanceKind::Shim(ty::ShimKind::FnPtr(..)) => "fnptr", ty::InstanceKind::Intrinsic(_) => "intrinsic", _ => "shim" };
                o.push(("res", J::S(path(tcx, rd))));
                o.push(("ruid", J::S(uid(tcx, rd))));
                o.push(("rkind", J::s(kind)));
                o.push(("rkrate", J::S(tcx.crate_name(rd.krate).to_string())));
            }
            _ => {}
        }
        J::O(o)
    }

    // ---- places / operands / rvalues -------------------------------------
    fn place(&mut self, body: &mir::Body<'tcx>, p: mir::Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut pr = vec![];
        for (base, elem) in p.iter_projections() {
            let bt = base.ty(body, tcx);
            pr.push(match elem {
                ProjectionElem::Deref => J::A(vec![J::s("d")]),
                ProjectionElem::Field(f, _) => {
                    let name = match bt.ty.kind() {
                        ty::Adt(def, _) => { let v = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT); def.variant(v).fields[f].name.to_string() }
                        ty::Closure(d, _) => { let names = tcx.closure_saved_names_of_captured_variables(*d); names.get(f).map(|s| s.to_string()).unwrap_or(format!("{}", f.as_usize())) }
                        _ => format!("{}", f.as_usize()),
                    };
                    J::A(vec![J::s("f"), J::I(f.as_usize() as i128), J::S(name)])
                }
                ProjectionElem::Downcast(_, v) => {
                    let name = match bt.ty.kind() { ty::Adt(def, _) => def.variant(v).name.to_string(), _ => format!("{}", v.as_usize()) };
                    J::A(vec![J::s("v"), J::S(name)])
                }
                ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::I(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![J::s("ci"), J::I(offset as i128), J::I(min_length as i128), J::B(from_end)]),
                ProjectionElem::Subslice { from, to, from_end } => J::A(vec![J::s("s"), J::I(from as i128), J::I(to as i128), J::B(from_end)]),
                _ => J::A(vec![J::s("o")]),
            });
        }
        let t = p.ty(body, tcx).ty;
        J::A(vec![J::I(p.local.as_usize() as i128), J::A(pr), self.ty(t)])
    }
    fn operand(&mut self, body: &mir::Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::A(vec![J::s("c"), self.place(body, *p)]),
            Operand::Move(p) => J::A(vec![J::s("m"), self.place(body, *p)]),
            Operand::Constant(c) => self.konst(c),
            Operand::RuntimeChecks(_) => J::A(vec![J::s("rc")]),
        }
    }
    fn rvalue(&mut self, body: &mir::Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![J::s("use"), self.operand(body, o)]),
            Rvalue::Repeat(o, n) => J::A(vec![J::s("repeat"), self.operand(body, o), n.try_to_target_usize(self.tcx).map(|n| J::I(n as i128)).unwrap_or(J::Null)]),
            Rvalue::Ref(_, bk, p) => J::A(vec![J::s("ref"), J::B(matches!(bk, mir::BorrowKind::Mut { .. })), self.place(body, *p)]),
            Rvalue::RawPtr(k, p) => J::A(vec![J::s("rawptr"), J::S(format!("{:?}", k)), self.place(body, *p)]),
            Rvalue::Cast(k, o, t) => { let tj = self.ty(*t); let st = o.ty(body, self.tcx); let sj = self.ty(st); J::A(vec![J::s("cast"), J::S(format!("{:?}", k)), self.operand(body, o), tj, sj]) }
            Rvalue::BinaryOp(op, b) => J::A(vec![J::s("bin"), J::S(format!("{:?}", op)), self.operand(body, &b.0), self.operand(body, &b.1)]),
            Rvalue::UnaryOp(op, o) => J::A(vec![J::s("un"), J::S(format!("{:?}", op)), self.operand(body, o)]),
            Rvalue::Discriminant(p) => J::A(vec![J::s("discr"), self.place(body, *p)]),
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(body, o)).collect();
                let kj = match &**k {
                    mir::AggregateKind::Array(_) => J::A(vec![J::s("array")]),
                    mir::AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    mir::AggregateKind::Adt(d, v, args, _, _) => {
                        let def = self.tcx.adt_def(*d);
                        let var = def.variant(*v);
                        let fs = var.fields.iter().map(|f| J::S(f.name.to_string())).collect();
                        let t = Ty::new_adt(self.tcx, def, args); let _ = self.ty(t);
                        J::A(vec![J::s("adt"), J::S(path(self.tcx, *d)), J::S(var.name.to_string()), J::A(fs), J::B(def.is_enum())])
                    }
                    mir::AggregateKind::Closure(d, _) => {
                        let names = self.tcx.closure_saved_names_of_captured_variables(*d).iter().map(|s| J::S(s.to_string())).collect();
                        J::A(vec![J::s("closure"), J::S(uid(self.tcx, *d)), J::A(names)])
                    }
                    mir::AggregateKind::RawPtr(..) => J::A(vec![J::s("rawptr")]),
                    _ => J::A(vec![J::s("other")]),
                };
                J::A(vec![J::s("agg"), kj, J::A(os)])
            }
            Rvalue::CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(body, *p)])]),
            Rvalue::Reborrow(_, m, p) => J::A(vec![J::s("ref"), J::B(m.is_mut()), self.place(body, *p)]),
            Rvalue::ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::S(path(self.tcx, *d))]),
            Rvalue::WrapUnsafeBinder(o, _) => J::A(vec![J::s("use"), self.operand(body, o)]),
        }
    }
    fn body(&mut self, id: DefId, body: &mir::Body<'tcx>) -> J {
        let tcx = self.tcx;
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &body.var_debug_info {
            if let mir::VarDebugInfoContents::Place(p) = v.value { if p.projection.is_empty() { names.entry(p.local.as_usize()).or_insert(v.name.to_string()); } }
        }
        let locals = body.local_decls.iter_enumerated().map(|(l, d)| {
            let t = self.ty(d.ty);
            J::A(vec![t, names.get(&l.as_usize()).map(|s| J::S(s.clone())).unwrap_or(J::Null)])
        }).collect();
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut st = vec![];
            for s in &bb.statements {
                match &s.kind {
                    StatementKind::Assign(b) => { let p = self.place(body, b.0); let r = self.rvalue(body, &b.1); st.push(J::A(vec![J::s("="), p, r, span_j(tcx, s.source_info.span)])); }
                    StatementKind::SetDiscriminant { place, variant_index } => { let p = self.place(body, **place); st.push(J::A(vec![J::s("sd"), p, J::I(variant_index.as_usize() as i128)])); }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![J::s("dead"), J::I(l.as_usize() as i128)])),
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = span_j(tcx, t.source_info.span);
            let bbj = |b: mir::BasicBlock| J::I(b.as_usize() as i128);
            let unw = |u: &mir::UnwindAction| match u { mir::UnwindAction::Cleanup(b) => J::I(b.as_usize() as i128), _ => J::Null };
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::A(vec![J::s("goto"), bbj(*target)]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let dt = discr.ty(body, tcx);
                    let tys = self.ty(dt);
                    let o = self.operand(body, discr);
                    let ts = targets.iter().map(|(v, b)| J::A(vec![J::I(v as i128), bbj(b)])).collect();
                    J::A(vec![J::s("switch"), o, J::A(ts), bbj(targets.otherwise()), tys])
                }
                TerminatorKind::Return => J::A(vec![J::s("return")]),
                TerminatorKind::Unreachable => J::A(vec![J::s("unreachable")]),
                TerminatorKind::Drop { place, target, unwind, .. } => { let p = self.place(body, *place); J::A(vec![J::s("drop"), p, bbj(*target), unw(unwind)]) }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    let f = self.operand(body, func);
                    let a = args.iter().map(|a| self.operand(body, &a.node)).collect();
                    let d = self.place(body, *destination);
                    J::A(vec![J::s("call"), f, J::A(a), d, target.map(bbj).unwrap_or(J::Null), unw(unwind)])
                }
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    let c = self.operand(body, cond);
                    let mk = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => { let l = self.operand(body, len); let i = self.operand(body, index); J::A(vec![J::s("bounds"), l, i]) }
                        mir::AssertKind::Overflow(op, a, b) => { let a = self.operand(body, a); let b = self.operand(body, b); J::A(vec![J::s("overflow"), J::S(format!("{:?}", op)), a, b]) }
                        mir::AssertKind::DivisionByZero(_) | mir::AssertKind::RemainderByZero(_) => J::A(vec![J::s("divzero")]),
                        mir::AssertKind::OverflowNeg(_) => J::A(vec![J::s("overflowneg")]),
                        mir::AssertKind::MisalignedPointerDereference { .. } | mir::AssertKind::NullPointerDereference => J::A(vec![J::s("ptrcheck")]),
                        _ => J::A(vec![J::s("other")]),
                    };
                    J::A(vec![J::s("assert"), c, J::B(*expected), mk, bbj(*target), unw(unwind)])
                }
                TerminatorKind::UnwindResume => J::A(vec![J::s("resume")]),
                TerminatorKind::UnwindTerminate(_) => J::A(vec![J::s("abort")]),
                TerminatorKind::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), bbj(*real_target)]),
                TerminatorKind::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), bbj(*real_target)]),
                k => J::A(vec![J::s("other"), J::S(format!("{:?}", k))]),
            };
            blocks.push(J::O(vec![("s", J::A(st)), ("t", tj), ("sp", sp), ("cl", J::B(bb.is_cleanup))]));
        }
        let kind = match tcx.def_kind(id) { DefKind::Closure => "closure", DefKind::AssocFn => "method", _ => "fn" };
        let mut o = vec![("path", J::S(path(tcx, id))), ("uid", J::S(uid(tcx, id))), ("kind", J::s(kind)), ("argc", J::I(body.arg_count as i128)),
            ("span", span_j(tcx, tcx.def_span(id))), ("locals", J::A(locals)), ("blocks", J::A(blocks))];
        if matches!(tcx.def_kind(id), DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(id).skip_binder();
            o.push(("unsafe", J::B(!sig.safety().is_safe())));
            o.push(("pub", J::B(tcx.visibility(id).is_public())));
            // Returns a reference whose lifetime is not that of a reference it was given.
            let given: Vec<ty::Region<'_>> = sig.skip_binder().inputs().iter().filter_map(|t| match t.kind() { ty::Ref(r, _, _) => Some(*r), _ => None }).collect();
            let free = sig.skip_binder().output().walk().any(|a| match a.kind() {
                ty::GenericArgKind::Type(t) => match t.kind() { ty::Ref(r, _, _) => !given.contains(r), _ => false },
                _ => false,
            });
            o.push(("extends", J::B(free)));
        }
        if let Some(imp) = tcx.impl_of_assoc(id) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            o.push(("self_ty", self.ty(st)));
            if let Some(tr) = tcx.impl_opt_trait_ref(imp) { o.push(("trait", J::S(path(tcx, tr.skip_binder().def_id)))); }
            o.push(("name", J::S(tcx.item_name(id).to_string())));
            let auto = tcx.is_automatically_derived(imp);
            o.push(("derived", J::B(auto)));
        } else if kind != "closure" { o.push(("name", J::S(tcx.item_name(id).to_string()))); }
        if kind == "closure" { o.push(("parent", J::S(uid(tcx, tcx.parent(id))))); }
        J::O(o)
    }
}

fn dump(tcx: TyCtxt<'_>, dir: &str) {
    let mut cx = Cx { tcx, types: BTreeMap::new(), adts: BTreeMap::new(), seen: HashSet::new(), env: TypingEnv::fully_monomorphized() };
    let mut fns = vec![];
    let mut consts = vec![];
    for &ld in tcx.mir_keys(()) {
        let id = ld.to_def_id();
        match tcx.def_kind(id) {
            DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {
                cx.env = TypingEnv::post_analysis(tcx, id);
                let body = tcx.optimized_mir(id);
                let j = cx.body(id, body);
                fns.push(j);
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                cx.env = TypingEnv::fully_monomorphized();
                let t = tcx.type_of(id).instantiate_identity().skip_norm_wip();
                let v = match tcx.const_eval_poly(id) { Ok(v) => cx.cval(v, t, 0), Err(_) => J::Null };
                let tj = cx.ty(t);
                consts.push(J::O(vec![("path", J::S(path(tcx, id))), ("ty", tj), ("val", v), ("span", span_j(tcx, tcx.def_span(id)))]));
            }
            _ => {}
        }
    }
    // Trait impls of local traits / by local types.
    let mut impls = vec![];
    for (tr, is) in tcx.all_local_trait_impls(()) {
        for i in is {
            let st = tcx.type_of(i.to_def_id()).instantiate_identity().skip_norm_wip();
            let ms = tcx.associated_item_def_ids(i.to_def_id()).iter().map(|m| J::A(vec![J::S(tcx.item_name(*m).to_string()), J::S(path(tcx, *m))])).collect();
            let tj = cx.ty(st);
            impls.push(J::O(vec![("trait", J::S(path(tcx, *tr))), ("ty", tj), ("methods", J::A(ms)), ("derived", J::B(tcx.is_automatically_derived(i.to_def_id())))]));
        }
    }
    let kind = format!("{:?}", tcx.crate_types().first().copied());
    let name = tcx.crate_name(LOCAL_CRATE).to_string();
    let types = std::mem::take(&mut cx.types).into_iter().map(|(k, v)| J::A(vec![J::S(k), v])).collect();
    let adts = std::mem::take(&mut cx.adts).into_iter().map(|(k, v)| J::A(vec![J::S(k), v])).collect();
    let root = J::O(vec![("crate", J::S(name.clone())), ("kind", J::S(kind.clone())), ("functions", J::A(fns)), ("consts", J::A(consts)), ("impls", J::A(impls)), ("types", J::A(types)), ("adts", J::A(adts))]);
    let mut s = String::new();
    root.write(&mut s);
    let k = if kind.contains("Executable") { "bin" } else if kind.contains("ProcMacro") { "pm" } else { "lib" };
    std::fs::write(format!("{}/{}-{}.json", dir, name, k), s).expect("write facts");
}
