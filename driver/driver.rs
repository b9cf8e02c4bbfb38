// Dumps the built MIR (before any optimisation) of every body of the crate
// `kpdb` as JSON, with resolved callees and evaluated constants.
#![feature(rustc_private)]
extern crate rustc_ast;
extern crate rustc_driver;
extern crate rustc_driver_impl;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver_impl::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_hir::intravisit::{self, Visitor};
use rustc_middle::hir::nested_filter;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::{with_no_trimmed_paths, with_no_visible_paths};
use rustc_middle::ty::{self, Instance, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Write as _;

enum J {
    Null,
    B(bool),
    N(i128),
    S(String),
    A(Vec<J>),
    O(Vec<(&'static str, J)>),
    M(BTreeMap<String, J>),
}
fn s<T: Into<String>>(x: T) -> J {
    J::S(x.into())
}
fn n<T: TryInto<i128>>(x: T) -> J {
    J::N(x.try_into().ok().unwrap_or(-1))
}
impl J {
    fn out(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::B(b) => o.push_str(if *b { "true" } else { "false" }),
            J::N(x) => {
                let _ = write!(o, "{}", x);
            }
            J::S(x) => esc(x, o),
            J::A(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.out(o);
                }
                o.push(']');
            }
            J::O(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.out(o);
                }
                o.push('}');
            }
            J::M(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    esc(k, o);
                    o.push(':');
                    x.out(o);
                }
                o.push('}');
            }
        }
    }
}
fn esc(x: &str, o: &mut String) {
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 || (c as u32) == 127 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    tys: HashMap<Ty<'tcx>, usize>,
    ty_out: Vec<J>,
    adts: BTreeMap<String, J>,
    extern_fns: BTreeMap<String, J>,
}

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(with_no_visible_paths!(self.tcx.def_path_str(d)))
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.tys.get(&t) {
            return n(*i);
        }
        let i = self.ty_out.len();
        self.tys.insert(t, i);
        self.ty_out.push(J::Null);
        let disp = with_no_trimmed_paths!(with_no_visible_paths!(format!("{}", t)));
        let mut o: Vec<(&'static str, J)> = vec![("s", s(disp))];
        match *t.kind() {
            ty::Adt(def, args) => {
                let p = self.path(def.did());
                o.push(("k", s("adt")));
                o.push(("d", s(p.clone())));
                let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
                if !self.adts.contains_key(&p) {
                    self.adts.insert(p.clone(), J::Null);
                    let mut vs = vec![];
                    let discrs: HashMap<_, _> = if def.is_enum() {
                        def.discriminants(self.tcx).map(|(i, d)| (i, d.val)).collect()
                    } else {
                        HashMap::new()
                    };
                    for (vi, v) in def.variants().iter_enumerated() {
                        let fs: Vec<J> = v
                            .fields
                            .iter()
                            .map(|f| {
                                let ft = self.tcx.type_of(f.did).instantiate_identity();
                                let ft = ft.skip_normalization();
                                let ft = self.ty(ft);
                                let vis = f.vis.is_public();
                                J::O(vec![("n", s(f.name.as_str())), ("t", ft), ("pub", J::B(vis))])
                            })
                            .collect();
                        vs.push(J::O(vec![
                            ("n", s(v.name.as_str())),
                            ("d", discrs.get(&vi).map(|x| n(*x as i128)).unwrap_or(J::Null)),
                            ("f", J::A(fs)),
                        ]));
                    }
                    let kind = if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    };
                    self.adts.insert(
                        p,
                        J::O(vec![
                            ("kind", s(kind)),
                            ("local", J::B(def.did().is_local())),
                            ("v", J::A(vs)),
                        ]),
                    );
                }
            }
            ty::Ref(_, x, m) => {
                o.push(("k", s("ref")));
                o.push(("m", J::B(m.is_mut())));
                let x = self.ty(x);
                o.push(("a", J::A(vec![x])));
            }
            ty::RawPtr(x, m) => {
                o.push(("k", s("ptr")));
                o.push(("m", J::B(m.is_mut())));
                let x = self.ty(x);
                o.push(("a", J::A(vec![x])));
            }
            ty::Slice(x) => {
                o.push(("k", s("slice")));
                let x = self.ty(x);
                o.push(("a", J::A(vec![x])));
            }
            ty::Array(x, c) => {
                o.push(("k", s("array")));
                o.push(("n", c.try_to_target_usize(self.tcx).map(n).unwrap_or(J::Null)));
                let x = self.ty(x);
                o.push(("a", J::A(vec![x])));
            }
            ty::Tuple(xs) => {
                o.push(("k", s("tuple")));
                let a: Vec<J> = xs.iter().map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::Param(p) => {
                o.push(("k", s("param")));
                o.push(("i", n(p.index)));
                o.push(("n", s(p.name.as_str())));
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("d", s(self.path(d))));
                let a: Vec<J> =
                    args.as_closure().parent_args().iter().filter_map(|x| x.as_type()).map(|x| self.ty(x)).collect();
                o.push(("a", J::A(a)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let args = args.no_bound_vars();
                let f = match args {
                    Some(args) => self.fnref(None, d, args),
                    None => s(self.path(d)),
                };
                o.push(("f", f));
            }
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_) | ty::Str | ty::Never => {
                o.push(("k", s("prim")));
            }
            ty::Dynamic(..) => o.push(("k", s("dyn"))),
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.ty_out[i] = J::O(o);
        n(i)
    }

    fn fnref(&mut self, env: Option<TypingEnv<'tcx>>, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let p = self.path(d);
        let mut o: Vec<(&'static str, J)> = vec![("def", s(p)), ("local", J::B(d.is_local()))];
        o.push(("krate", s(tcx.crate_name(d.krate).as_str())));
        o.push(("name", s(tcx.opt_item_name(d).map(|x| x.to_string()).unwrap_or_default())));
        let a: Vec<J> = args.types().map(|x| self.ty(x)).collect();
        o.push(("args", J::A(a)));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            o.push(("trait", s(self.path(tr))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let v = tcx.parent(d);
            let adt_did = match tcx.def_kind(v) {
                DefKind::Variant => tcx.parent(v),
                _ => v,
            };
            let adt = tcx.adt_def(adt_did);
            let idx = if adt.is_enum() { adt.variant_index_with_id(v).as_usize() } else { 0 };
            o.push(("ctor", J::O(vec![("d", s(self.path(adt_did))), ("v", n(idx))])));
        }
        if let Some(env) = env {
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                let eargs = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(inst)) = Instance::try_resolve(tcx, env, d, eargs) {
                    let rd = inst.def_id();
                    if rd != d {
                        let a: Vec<J> = inst.args.types().map(|x| self.ty(x)).collect();
                        o.push((
                            "res",
                            J::O(vec![
                                ("def", s(self.path(rd))),
                                ("local", J::B(rd.is_local())),
                                ("args", J::A(a)),
                            ]),
                        ));
                    }
                }
            }
        }
        let sig = tcx.fn_sig(d).instantiate_identity();
        let sig = sig.skip_normalization();
        if !sig.safety().is_safe() {
            o.push(("unsafe", J::B(true)));
        }
        if !d.is_local() && self.panics(d) {
            o.push(("pd", J::B(true)));
        }
        let never = sig.output().skip_binder().is_never();
        if never {
            o.push(("never", J::B(true)));
        }
        J::O(o)
    }

    /// the documentation of a foreign function says when it panics
    #[allow(deprecated)]
    fn panics(&self, d: DefId) -> bool {
        use rustc_ast::attr::AttributeExt;
        self.tcx.get_all_attrs(d).iter().any(|a| a.doc_str().map_or(false, |x| x.as_str().contains("# Panics")))
    }

    fn span(&self, sp: Span) -> J {
        let sm = self.tcx.sess.source_map();
        let sp = sp.source_callsite();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        if depth > 12 {
            return J::O(vec![("c", s("deep"))]);
        }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let sc = match v {
                    ConstValue::Scalar(Scalar::Int(i)) => Some(i),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let env = TypingEnv::fully_monomorphized();
                        match (tcx.try_get_global_alloc(alloc_id), tcx.layout_of(env.as_query_input(t))) {
                            (Some(GlobalAlloc::Memory(a)), Ok(l)) => {
                                let r = rustc_middle::mir::interpret::alloc_range(offset, l.size);
                                match a.inner().read_scalar(&tcx, r, false) {
                                    Ok(Scalar::Int(i)) => Some(i),
                                    _ => None,
                                }
                            }
                            _ => None,
                        }
                    }
                    _ => None,
                };
                if let Some(i) = sc {
                    let size = i.size();
                    let val: i128 = match *t.kind() {
                        ty::Int(_) => i.to_int(size),
                        _ => i.to_uint(size) as i128,
                    };
                    return match *t.kind() {
                        ty::Bool => J::O(vec![("c", s("bool")), ("v", J::B(val != 0))]),
                        ty::Char => J::O(vec![
                            ("c", s("char")),
                            ("v", n(val)),
                        ]),
                        _ => {
                            if val > i64::MAX as i128 || val < i64::MIN as i128 {
                                J::O(vec![("c", s("int")), ("v", s(format!("{}", i.to_uint(size))))])
                            } else {
                                J::O(vec![("c", s("int")), ("v", n(val))])
                            }
                        }
                    };
                }
            }
            ty::Ref(_, inner, _) => {
                // find the pointee
                let mut target: Option<(rustc_middle::mir::interpret::AllocId, u64, Option<u64>)> = None;
                match v {
                    ConstValue::Slice { alloc_id, meta } => target = Some((alloc_id, 0, Some(meta))),
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        target = Some((prov.alloc_id(), off.bytes(), None));
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                            let ps = tcx.data_layout.pointer_size();
                            let r = rustc_middle::mir::interpret::alloc_range(offset, ps);
                            if let Ok(Scalar::Ptr(p, _)) = a.inner().read_scalar(&tcx, r, true) {
                                let (prov, off) = p.into_raw_parts();
                                let mut meta = None;
                                if matches!(inner.kind(), ty::Str | ty::Slice(_)) {
                                    let r2 = rustc_middle::mir::interpret::alloc_range(offset + ps, ps);
                                    if let Ok(Scalar::Int(i)) = a.inner().read_scalar(&tcx, r2, false) {
                                        meta = Some(i.to_uint(i.size()) as u64);
                                    }
                                }
                                target = Some((prov.alloc_id(), off.bytes(), meta));
                            }
                        }
                    }
                    _ => {}
                }
                if let Some((aid, off, meta)) = target {
                    match tcx.try_get_global_alloc(aid) {
                        Some(GlobalAlloc::Memory(a)) => {
                            let inside = match *inner.kind() {
                                ty::Str => {
                                    let len = meta.unwrap_or(0) as usize;
                                    let b = a.inner().inspect_with_uninit_and_ptr_outside_interpreter(
                                        off as usize..off as usize + len,
                                    );
                                    J::O(vec![("c", s("str")), ("v", s(String::from_utf8_lossy(b).into_owned()))])
                                }
                                ty::Slice(el) => {
                                    let len = meta.unwrap_or(0);
                                    self.elems(aid, off, el, len, depth)
                                }
                                _ => self.cval(
                                    ConstValue::Indirect {
                                        alloc_id: aid,
                                        offset: rustc_middle_size(off),
                                    },
                                    inner,
                                    depth + 1,
                                ),
                            };
                            return J::O(vec![("c", s("ref")), ("v", inside)]);
                        }
                        Some(GlobalAlloc::Static(d)) => {
                            return J::O(vec![("c", s("static")), ("v", s(self.path(d)))]);
                        }
                        _ => {}
                    }
                }
            }
            ty::Array(el, len) => {
                if let ConstValue::Indirect { alloc_id, offset } = v {
                    let len = len.try_to_target_usize(tcx).unwrap_or(0);
                    return self.elems(alloc_id, offset.bytes(), el, len, depth);
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    return J::O(vec![("c", s("array")), ("v", J::A(fs))]);
                }
            }
            ty::Tuple(_) | ty::Adt(..) => {
                if let ty::Adt(a, _) = t.kind() {
                    if a.is_union() {
                        return J::O(vec![("c", s("opaque")), ("v", s("union"))]);
                    }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    let fs: Vec<J> = d.fields.iter().map(|(v, t)| self.cval(*v, *t, depth + 1)).collect();
                    let vi = d.variant.map(|x| n(x.as_usize())).unwrap_or(n(0));
                    return J::O(vec![("c", s("agg")), ("var", vi), ("v", J::A(fs))]);
                }
            }
            ty::FnDef(..) => return J::O(vec![("c", s("fn"))]),
            _ => {}
        }
        J::O(vec![("c", s("opaque")), ("v", s(format!("{:?}", v)))])
    }

    fn elems(
        &mut self,
        aid: rustc_middle::mir::interpret::AllocId,
        off: u64,
        el: Ty<'tcx>,
        len: u64,
        depth: usize,
    ) -> J {
        let tcx = self.tcx;
        if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(aid) {
            if el == tcx.types.u8 {
                let b = a
                    .inner()
                    .inspect_with_uninit_and_ptr_outside_interpreter(off as usize..(off + len) as usize);
                let v: Vec<J> = b.iter().map(|x| n(*x)).collect();
                return J::O(vec![("c", s("bytes")), ("v", J::A(v))]);
            }
            let env = TypingEnv::fully_monomorphized();
            if let Ok(l) = tcx.layout_of(env.as_query_input(el)) {
                let mut v = vec![];
                for i in 0..len.min(4096) {
                    let o = off + i * l.size.bytes();
                    v.push(self.cval(
                        ConstValue::Indirect { alloc_id: aid, offset: rustc_middle_size(o) },
                        el,
                        depth + 1,
                    ));
                }
                return J::O(vec![("c", s("array")), ("v", J::A(v))]);
            }
        }
        J::O(vec![("c", s("opaque"))])
    }

    fn place(&mut self, body: &Body<'tcx>, p: Place<'tcx>) -> J {
        let mut proj = vec![];
        let tcx = self.tcx;
        for (base, el) in p.iter_projections() {
            let j = match el {
                ProjectionElem::Deref => J::A(vec![s("*")]),
                ProjectionElem::Field(f, t) => {
                    let bt = base.ty(body, tcx);
                    let mut name = format!("{}", f.as_usize());
                    if let ty::Adt(a, _) = bt.ty.kind() {
                        let vi = bt.variant_index.unwrap_or(rustc_abi_first());
                        if a.is_enum() || a.is_struct() || a.is_union() {
                            name = a.variant(vi).fields[f].name.to_string();
                        }
                    }
                    let ft = self.ty(t);
                    J::A(vec![s("f"), n(f.as_usize()), s(name), ft])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_usize())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::A(vec![s("c"), n(offset), n(min_length), J::B(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("s"), n(from), n(to), J::B(from_end)])
                }
                ProjectionElem::Downcast(nm, v) => J::A(vec![
                    s("v"),
                    n(v.as_usize()),
                    nm.map(|x| s(x.as_str())).unwrap_or(J::Null),
                ]),
                _ => J::A(vec![s("?")]),
            };
            proj.push(j);
        }
        J::A(vec![n(p.local.as_usize()), J::A(proj)])
    }

    fn operand(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::O(vec![("copy", self.place(body, *p))]),
            Operand::Move(p) => J::O(vec![("move", self.place(body, *p))]),
            Operand::Constant(c) => {
                let t = c.const_.ty();
                let tj = self.ty(t);
                let mut v = vec![("t", tj)];
                if let ty::FnDef(d, args) = *t.kind() {
                    if let Some(args) = args.no_bound_vars() {
                        let f = self.fnref(Some(env), d, args);
                        v.push(("fn", f));
                    }
                } else {
                    if let Const::Unevaluated(u, _) = c.const_ {
                        v.push(("item", s(self.path(u.def))));
                    }
                    match c.const_.eval(self.tcx, env, c.span) {
                        Ok(cv) => {
                            let x = self.cval(cv, t, 0);
                            v.push(("v", x));
                        }
                        Err(_) => {
                            v.push(("v", J::O(vec![("c", s("opaque")), ("v", s(format!("{}", c.const_)))])));
                        }
                    }
                }
                J::O(vec![("const", J::O(v))])
            }
            _ => J::O(vec![("rtc", J::B(false))]),
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, env: TypingEnv<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, ..) => J::A(vec![s("use"), self.operand(body, env, o)]),
            Rvalue::Repeat(o, c) => {
                let o = self.operand(body, env, o);
                J::A(vec![
                    s("repeat"),
                    o,
                    c.try_to_target_usize(self.tcx).map(n).unwrap_or(J::Null),
                ])
            }
            Rvalue::Ref(_, k, p) => {
                let m = matches!(k, BorrowKind::Mut { .. });
                let fake = matches!(k, BorrowKind::Fake(_));
                let p = self.place(body, *p);
                J::A(vec![s("ref"), s(if fake { "fake" } else if m { "mut" } else { "shared" }), p])
            }
            Rvalue::RawPtr(_, p) => {
                let p = self.place(body, *p);
                J::A(vec![s("ref"), s("raw"), p])
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(body, self.tcx);
                let from = self.ty(from);
                let t = self.ty(*t);
                let o = self.operand(body, env, o);
                J::A(vec![s("cast"), s(format!("{:?}", k)), o, from, t])
            }
            Rvalue::BinaryOp(op, b) => {
                let t = b.0.ty(body, self.tcx);
                let t = self.ty(t);
                let x = self.operand(body, env, &b.0);
                let y = self.operand(body, env, &b.1);
                J::A(vec![s("bin"), s(format!("{:?}", op)), x, y, t])
            }
            Rvalue::UnaryOp(op, o) => {
                let o = self.operand(body, env, o);
                J::A(vec![s("un"), s(format!("{:?}", op)), o])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(body, self.tcx).ty;
                let t = self.ty(t);
                let p = self.place(body, *p);
                J::A(vec![s("discr"), p, t])
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(body, env, o)).collect();
                let kj = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::A(vec![s("array"), t])
                    }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, active) => {
                        let adt = self.tcx.adt_def(*d);
                        let t = Ty::new_adt(self.tcx, adt, args);
                        let t = self.ty(t);
                        let fnames: Vec<J> =
                            adt.variant(*v).fields.iter().map(|f| s(f.name.as_str())).collect();
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            n(v.as_usize()),
                            s(adt.variant(*v).name.as_str()),
                            J::A(fnames),
                            t,
                            active.map(|x| n(x.as_usize())).unwrap_or(J::Null),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let a: Vec<J> = args
                            .as_closure()
                            .parent_args()
                            .iter()
                            .filter_map(|x| x.as_type())
                            .map(|x| self.ty(x))
                            .collect();
                        J::A(vec![s("closure"), s(self.path(*d)), J::A(a)])
                    }
                    _ => J::A(vec![s("other")]),
                };
                J::A(vec![s("agg"), kj, J::A(os)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(body, *p);
                J::A(vec![s("use"), J::O(vec![("copy", p)])])
            }
            other => J::A(vec![s("other"), s(format!("{:?}", other))]),
        }
    }

    fn body(&mut self, did: DefId, body: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::non_body_analysis(tcx, did);
        let mut names: HashMap<usize, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let t = self.ty(d.ty);
            let mut o = vec![("t", t)];
            if let Some(nm) = names.get(&l.as_usize()) {
                o.push(("n", s(nm.as_str())));
            }
            locals.push(J::O(o));
        }
        let mut blocks = vec![];
        for (_bb, b) in body.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &b.statements {
                match &x.kind {
                    StatementKind::Assign(a) => {
                        let (p, r) = &**a;
                        let r = self.rvalue(body, env, r);
                        let p = self.place(body, *p);
                        let sp = self.span(x.source_info.span);
                        st.push(J::A(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, **place);
                        st.push(J::A(vec![s("setd"), p, n(variant_index.as_usize())]));
                    }
                    StatementKind::StorageDead(l) => st.push(J::A(vec![s("dead"), n(l.as_usize())])),
                    StatementKind::StorageLive(l) => st.push(J::A(vec![s("live"), n(l.as_usize())])),
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = self.span(t.source_info.span);
            let mut o: Vec<(&'static str, J)> = vec![("sp", sp)];
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(target.as_usize())));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    o.push(("k", s("switch")));
                    let ty = discr.ty(body, tcx);
                    let tj = self.ty(ty);
                    o.push(("ty", tj));
                    let d = self.operand(body, env, discr);
                    o.push(("d", d));
                    let ts: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| {
                            J::A(vec![
                                if v > i64::MAX as u128 { s(format!("{}", v)) } else { n(v as i128) },
                                n(b.as_usize()),
                            ])
                        })
                        .collect();
                    o.push(("ts", J::A(ts)));
                    o.push(("o", n(targets.otherwise().as_usize())));
                }
                TerminatorKind::Return => o.push(("k", s("return"))),
                TerminatorKind::Unreachable => o.push(("k", s("unreachable"))),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    o.push(("k", s("resume")))
                }
                TerminatorKind::Drop { place, target, .. } => {
                    o.push(("k", s("drop")));
                    let pt = place.ty(body, tcx).ty;
                    let pt = self.ty(pt);
                    let p = self.place(body, *place);
                    o.push(("p", p));
                    o.push(("ty", pt));
                    o.push(("t", n(target.as_usize())));
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    o.push(("k", s("call")));
                    let ft = func.ty(body, tcx);
                    let ftj = self.ty(ft);
                    o.push(("fty", ftj));
                    let f = self.operand(body, env, func);
                    o.push(("f", f));
                    let a: Vec<J> = args.iter().map(|x| self.operand(body, env, &x.node)).collect();
                    o.push(("args", J::A(a)));
                    let at: Vec<J> = args
                        .iter()
                        .map(|x| {
                            let t = x.node.ty(body, tcx);
                            self.ty(t)
                        })
                        .collect();
                    o.push(("at", J::A(at)));
                    let dt = destination.ty(body, tcx).ty;
                    let dt = self.ty(dt);
                    o.push(("dt", dt));
                    let d = self.place(body, *destination);
                    o.push(("dest", d));
                    o.push(("t", target.map(|x| n(x.as_usize())).unwrap_or(J::Null)));
                    let fs = self.span(*fn_span);
                    o.push(("fsp", fs));
                    let exp = t.source_info.span.from_expansion();
                    o.push(("exp", J::B(exp)));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    o.push(("k", s("assert")));
                    let c = self.operand(body, env, cond);
                    o.push(("c", c));
                    o.push(("e", J::B(*expected)));
                    let (m, ops) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".to_string(),
                            vec![self.operand(body, env, len), self.operand(body, env, index)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow {:?}", op),
                            vec![self.operand(body, env, a), self.operand(body, env, b)],
                        ),
                        AssertKind::OverflowNeg(a) => ("overflow Neg".to_string(), vec![self.operand(body, env, a)]),
                        AssertKind::DivisionByZero(a) => ("div0".to_string(), vec![self.operand(body, env, a)]),
                        AssertKind::RemainderByZero(a) => ("rem0".to_string(), vec![self.operand(body, env, a)]),
                        _ => ("other".to_string(), vec![]),
                    };
                    o.push(("m", s(m)));
                    o.push(("mo", J::A(ops)));
                    o.push(("t", n(target.as_usize())));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.as_usize())));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    o.push(("k", s("goto")));
                    o.push(("t", n(real_target.as_usize())));
                }
                other => {
                    o.push(("k", s("other")));
                    o.push(("x", s(format!("{:?}", other))));
                }
            }
            blocks.push(J::O(vec![
                ("s", J::A(st)),
                ("t", J::O(o)),
                ("cleanup", J::B(b.is_cleanup)),
            ]));
        }
        let gens = tcx.generics_of(did);
        let mut gnames: Vec<(usize, String)> = vec![];
        let mut g = Some(gens);
        while let Some(x) = g {
            for p in &x.own_params {
                if matches!(p.kind, ty::GenericParamDefKind::Type { .. }) {
                    gnames.push((p.index as usize, p.name.to_string()));
                }
            }
            g = x.parent.map(|p| tcx.generics_of(p));
        }
        gnames.sort();
        let kind = format!("{:?}", tcx.def_kind(did));
        let vis = did
            .as_local()
            .map(|l| tcx.effective_visibilities(()).is_reachable(l))
            .unwrap_or(false);
        let mut o = vec![
            ("kind", s(kind)),
            ("name", s(tcx.opt_item_name(did).map(|x| x.to_string()).unwrap_or_default())),
            ("pub", J::B(vis)),
            ("argc", n(body.arg_count)),
            ("span", self.span(body.span)),
            ("locals", J::A(locals)),
            ("blocks", J::A(blocks)),
            (
                "generics",
                J::A(gnames.iter().map(|(i, x)| J::A(vec![n(*i), s(x.as_str())])).collect()),
            ),
        ];
        if let Some(im) = tcx.impl_of_assoc(did) {
            let st = tcx.type_of(im).instantiate_identity().skip_normalization();
            let st = self.ty(st);
            o.push(("self_ty", st));
            if let Some(tr) = tcx.impl_opt_trait_ref(im) {
                let tr = tr.instantiate_identity().skip_normalization();
                o.push(("impl_trait", s(self.path(tr.def_id))));
                let a: Vec<J> = tr.args.types().map(|x| self.ty(x)).collect();
                o.push(("impl_trait_args", J::A(a)));
                let derived = tcx.is_automatically_derived(im);
                o.push(("derived", J::B(derived)));
            }
        }
        J::O(o)
    }
}

fn rustc_middle_size(x: u64) -> rustc_abi::Size {
    rustc_abi::Size::from_bytes(x)
}
fn rustc_abi_first() -> rustc_abi::VariantIdx {
    rustc_abi::VariantIdx::from_usize(0)
}
extern crate rustc_abi;

struct Unsafes<'tcx> {
    tcx: TyCtxt<'tcx>,
    out: Vec<(String, Span, &'static str)>,
}
impl<'tcx> Visitor<'tcx> for Unsafes<'tcx> {
    type NestedFilter = nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            let owner = self.tcx.hir_enclosing_body_owner(b.hir_id);
            let p = with_no_trimmed_paths!(with_no_visible_paths!(self.tcx.def_path_str(owner.to_def_id())));
            self.out.push((p, b.span, "block"));
        }
        intravisit::walk_block(self, b);
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_expansion<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let name = tcx.crate_name(LOCAL_CRATE);
        if name.as_str() != "kpdb" || tcx.sess.opts.test {
            return Compilation::Continue;
        }
        let Ok(out) = std::env::var("KPDB_DUMP") else { return Compilation::Continue };
        let mut cx = Cx {
            tcx,
            tys: HashMap::new(),
            ty_out: vec![],
            adts: BTreeMap::new(),
            extern_fns: BTreeMap::new(),
        };
        let owners: Vec<_> = tcx.hir_body_owners().collect();
        let mut bodies = vec![];
        for o in &owners {
            let b = tcx.mir_built(*o).borrow().clone();
            bodies.push((o.to_def_id(), b));
        }
        let mut fns = BTreeMap::new();
        for (d, b) in &bodies {
            if matches!(tcx.def_kind(*d), DefKind::AnonConst) {
                continue;
            }
            let p = cx.path(*d);
            let j = cx.body(*d, b);
            fns.insert(p, j);
        }
        let mut uns = Unsafes { tcx, out: vec![] };
        tcx.hir_walk_toplevel_module(&mut uns);
        let mut uo = vec![];
        for (p, sp, k) in &uns.out {
            let sp = cx.span(*sp);
            uo.push(J::O(vec![("fn", s(p.as_str())), ("sp", sp), ("k", s(*k))]));
        }
        let mut statics = vec![];
        let mut impls = vec![];
        let mut exports = vec![];
        for l in tcx.hir_crate_items(()).definitions() {
            let d = l.to_def_id();
            match tcx.def_kind(d) {
                DefKind::Static { mutability, .. } => {
                    let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                    let t = cx.ty(t);
                    statics.push(J::O(vec![
                        ("d", s(cx.path(d))),
                        ("mut", J::B(mutability.is_mut())),
                        ("t", t),
                    ]));
                }
                DefKind::Struct | DefKind::Enum => {
                    let t = tcx.type_of(d).instantiate_identity().skip_normalization();
                    cx.ty(t);
                    if tcx.effective_visibilities(()).is_reachable(l) {
                        exports.push(s(cx.path(d)));
                    }
                }
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(d).instantiate_identity().skip_normalization();
                    let st = cx.ty(st);
                    let mut o = vec![("self", st)];
                    if of_trait {
                        if let Some(tr) = tcx.impl_opt_trait_ref(d) {
                            let tr = tr.instantiate_identity().skip_normalization();
                            o.push(("trait", s(cx.path(tr.def_id))));
                            let a: Vec<J> = tr.args.types().map(|x| cx.ty(x)).collect();
                            o.push(("targs", J::A(a)));
                        }
                        let imp = tcx.impl_trait_header(d);
                        o.push(("unsafe", J::B(!imp.safety.is_safe())));
                    }
                    let mut items = BTreeMap::new();
                    for it in tcx.associated_items(d).in_definition_order() {
                        if matches!(it.kind, ty::AssocKind::Fn { .. }) {
                            items.insert(it.name().to_string(), s(cx.path(it.def_id)));
                        }
                    }
                    o.push(("items", J::M(items)));
                    o.push(("derived", J::B(tcx.is_automatically_derived(d))));
                    impls.push(J::O(o));
                }
                _ => {}
            }
        }
        let tys = std::mem::take(&mut cx.ty_out);
        let adts = std::mem::take(&mut cx.adts);
        let _ = &cx.extern_fns;
        let top = J::O(vec![
            ("crate", s(name.as_str())),
            ("fns", J::M(fns)),
            ("types", J::A(tys)),
            ("adts", J::M(adts)),
            ("unsafes", J::A(uo)),
            ("statics", J::A(statics)),
            ("impls", J::A(impls)),
            ("exports", J::A(exports)),
        ]);
        let mut o = String::new();
        top.out(&mut o);
        std::fs::write(&out, o).expect("write dump");
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo passes the path of the real rustc as first argument
    if args.len() > 1 && !args[1].starts_with('-') {
        args.remove(1);
    }
    rustc_driver_impl::compiler_entrypoint(&args, &mut Cb);
}
