//! rustc_private fact extractor: runs as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check` and
//! writes the monomorphised, resolved MIR of the analysed crate as JSON (path in RIPFACTS_OUT).
#![feature(rustc_private)]
#![allow(internal_features)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

mod json;
use json::J;

use std::collections::{HashMap, HashSet, VecDeque};

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::DefId;
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::{self, ConstValue};
use rustc_middle::ty::{self, EarlyBinder, GenericArg, Instance, InstanceKind, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;

struct Cb;

impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Ok(out) = std::env::var("RIPFACTS_OUT") {
            let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
            let want = std::env::var("RIPFACTS_CRATE").unwrap_or_else(|_| "ripcalc".into());
            if name.as_str() == want {
                let mut d = Dump::new(tcx);
                let j = d.run();
                let mut s = String::new();
                j.write(&mut s);
                std::fs::write(&out, s).expect("write facts");
            }
        }
        Compilation::Continue
    }
}

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_defs: Vec<J>,
    insts: HashMap<Instance<'tcx>, usize>,
    queue: VecDeque<(Instance<'tcx>, usize)>,
    bodies: Vec<(usize, J)>,
    stops: Vec<String>,
    nonlocal: usize,
    statics: HashMap<DefId, J>,
    done: HashSet<usize>,
}

const NONLOCAL_CAP: usize = 6000;

impl<'tcx> Dump<'tcx> {
    fn new(tcx: TyCtxt<'tcx>) -> Self {
        let stops = std::env::var("RIPFACTS_STOPS").ok()
            .and_then(|p| std::fs::read_to_string(p).ok())
            .map(|s| s.lines().map(|l| l.trim().to_string()).filter(|l| !l.is_empty() && !l.starts_with('#')).collect())
            .unwrap_or_default();
        Dump { tcx, types: HashMap::new(), type_defs: vec![], insts: HashMap::new(), queue: VecDeque::new(),
               bodies: vec![], stops, nonlocal: 0, statics: HashMap::new(), done: HashSet::new() }
    }
    fn env(&self) -> TypingEnv<'tcx> { TypingEnv::fully_monomorphized() }

    fn path(&self, d: DefId) -> String { ty::print::with_no_trimmed_paths!(self.tcx.def_path_str(d)) }

    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        let f = match &lo.file.name {
            rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
            o => format!("{:?}", o),
        };
        J::S(format!("{}:{}:{}", f, lo.line, lo.col.0 + 1))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.types.get(&t) { return *i; }
        let id = self.type_defs.len();
        self.types.insert(t, id);
        self.type_defs.push(J::Null);
        let s = ty::print::with_no_trimmed_paths!(t.to_string());
        let mut o = vec![("s", J::S(s))];
        match *t.kind() {
            ty::Bool => o.push(("k", J::s("bool"))),
            ty::Char => o.push(("k", J::s("char"))),
            ty::Int(i) => { o.push(("k", J::s("int"))); o.push(("bits", J::N(i.bit_width().unwrap_or(64) as i128))); o.push(("signed", J::B(true))); }
            ty::Uint(i) => { o.push(("k", J::s("int"))); o.push(("bits", J::N(i.bit_width().unwrap_or(64) as i128))); o.push(("signed", J::B(false))); }
            ty::Float(_) => o.push(("k", J::s("float"))),
            ty::Str => o.push(("k", J::s("str"))),
            ty::Never => o.push(("k", J::s("never"))),
            ty::Adt(def, args) => {
                o.push(("k", J::s("adt")));
                o.push(("path", J::S(self.path(def.did()))));
                o.push(("local", J::B(def.did().is_local())));
                let a: Vec<J> = args.types().map(|t| J::N(self.ty(t) as i128)).collect();
                o.push(("args", J::A(a)));
                o.push(("adt_kind", J::s(if def.is_enum() { "enum" } else if def.is_union() { "union" } else { "struct" })));
                let mut vs = vec![];
                for (vi, v) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        let d = def.discriminant_for_variant(self.tcx, vi);
                        if d.ty.is_signed() { d.ty.primitive_size(self.tcx).sign_extend(d.val) } else { d.val as i128 }
                    } else {
                        0
                    };
                    let mut fs = vec![];
                    for f in v.fields.iter() {
                        let ft = self.tcx.normalize_erasing_regions(self.env(), f.ty(self.tcx, args));
                        let pr = if f.vis.is_public() { "pub" } else { "priv" };
                        let fti = if def.did().is_local() || def.is_enum() || fs.len() < 4 { self.ty(ft) } else { 0 };
                        fs.push(J::O(vec![("n", J::S(f.name.to_string())), ("t", J::N(fti as i128)), ("vis", J::s(pr))]));
                    }
                    vs.push(J::O(vec![("n", J::S(v.name.to_string())), ("d", J::N(discr)), ("f", J::A(fs))]));
                }
                o.push(("variants", J::A(vs)));
            }
            ty::Ref(_, inner, m) => { o.push(("k", J::s("ref"))); o.push(("t", J::N(self.ty(inner) as i128))); o.push(("mut", J::B(m.is_mut()))); }
            ty::RawPtr(inner, m) => { o.push(("k", J::s("ptr"))); o.push(("t", J::N(self.ty(inner) as i128))); o.push(("mut", J::B(m.is_mut()))); }
            ty::Slice(inner) => { o.push(("k", J::s("slice"))); o.push(("t", J::N(self.ty(inner) as i128))); }
            ty::Array(inner, n) => {
                o.push(("k", J::s("array"))); o.push(("t", J::N(self.ty(inner) as i128)));
                if let Some(n) = n.try_to_target_usize(self.tcx) { o.push(("n", J::N(n as i128))); }
            }
            ty::Tuple(ts) => { o.push(("k", J::s("tuple"))); let a: Vec<J> = ts.iter().map(|t| J::N(self.ty(t) as i128)).collect(); o.push(("ts", J::A(a))); }
            ty::Closure(did, args) => {
                o.push(("k", J::s("closure")));
                let inst = Instance::new_raw(did, args);
                let inst = self.tcx.erase_and_anonymize_regions(inst);
                let id = self.inst(inst);
                o.push(("inst", J::N(id as i128)));
                let ups: Vec<J> = args.as_closure().upvar_tys().iter().map(|t| J::N(self.ty(t) as i128)).collect();
                o.push(("upvars", J::A(ups)));
            }
            ty::FnDef(did, args) => {
                o.push(("k", J::s("fndef")));
                let c = self.callee(did, args.no_bound_vars().unwrap(), rustc_span::DUMMY_SP);
                o.push(("fn", c));
            }
            ty::FnPtr(..) => o.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => o.push(("k", J::s("dyn"))),
            ty::Foreign(_) => o.push(("k", J::s("foreign"))),
            _ => o.push(("k", J::s("other"))),
        }
        self.type_defs[id] = J::O(o);
        id
    }

    fn stopped(&self, path: &str) -> bool {
        self.stops.iter().any(|s| if let Some(p) = s.strip_suffix('*') { path.starts_with(p) } else { path == s })
    }

    /// Intern an instance; queue its body for dumping if available.
    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        let i = self.tcx.erase_and_anonymize_regions(i);
        if let Some(id) = self.insts.get(&i) { return *id; }
        let id = self.insts.len();
        self.insts.insert(i, id);
        self.queue.push_back((i, id));
        id
    }

    fn callee(&mut self, did: DefId, args: ty::GenericArgsRef<'tcx>, span: Span) -> J {
        let tcx = self.tcx;
        let mut o = vec![("path", J::S(self.path(did)))];
        let full = ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(did, args));
        o.push(("full", J::S(full)));
        let a: Vec<J> = args.types().map(|t| J::N(self.ty(t) as i128)).collect();
        o.push(("args", J::A(a)));
        if let Some(tr) = tcx.trait_of_assoc(did) {
            o.push(("trait", J::S(self.path(tr))));
            o.push(("method", J::S(tcx.item_name(did).to_string())));
        }
        if let DefKind::Ctor(of, _) = tcx.def_kind(did) {
            let (vi, adt) = match of {
                rustc_hir::def::CtorOf::Struct => (0usize, tcx.parent(did)),
                rustc_hir::def::CtorOf::Variant => {
                    let v = tcx.parent(did);
                    let e = tcx.parent(v);
                    (tcx.adt_def(e).variant_index_with_id(v).as_usize(), e)
                }
            };
            let aty = Ty::new_adt(tcx, tcx.adt_def(adt), args);
            let tid = self.ty(aty);
            o.push(("ctor", J::O(vec![("variant", J::N(vi as i128)), ("ty", J::N(tid as i128))])));
            return J::O(o);
        }
        match Instance::try_resolve(tcx, self.env(), did, args) {
            Ok(Some(inst)) => {
                let rp = self.path(inst.def_id());
                o.push(("rpath", J::S(rp)));
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item",
                    InstanceKind::Intrinsic(_) => "intrinsic",
                    InstanceKind::Virtual(..) => "virtual",
                    _ => "shim",
                };
                o.push(("kind", J::s(kind)));
                o.push(("local", J::B(inst.def_id().is_local())));
                let ra: Vec<J> = inst.args.types().map(|t| J::N(self.ty(t) as i128)).collect();
                o.push(("rargs", J::A(ra)));
                if let InstanceKind::Item(_) = inst.def {
                    let id = self.inst(inst);
                    o.push(("inst", J::N(id as i128)));
                }
            }
            _ => { o.push(("kind", J::s("unresolved"))); }
        }
        let _ = span;
        J::O(o)
    }

    fn place(&mut self, p: &mir::Place<'tcx>) -> J {
        let mut pr = vec![];
        for e in p.projection.iter() {
            pr.push(match e {
                mir::ProjectionElem::Deref => J::A(vec![J::s("*")]),
                mir::ProjectionElem::Field(f, t) => J::A(vec![J::s("f"), J::N(f.as_usize() as i128), J::N(self.ty(t) as i128)]),
                mir::ProjectionElem::Index(l) => J::A(vec![J::s("i"), J::N(l.as_usize() as i128)]),
                mir::ProjectionElem::ConstantIndex { offset, min_length, from_end } =>
                    J::A(vec![J::s("ci"), J::N(offset as i128), J::N(min_length as i128), J::B(from_end)]),
                mir::ProjectionElem::Subslice { from, to, from_end } =>
                    J::A(vec![J::s("ss"), J::N(from as i128), J::N(to as i128), J::B(from_end)]),
                mir::ProjectionElem::Downcast(_, v) => J::A(vec![J::s("v"), J::N(v.as_usize() as i128)]),
                _ => J::A(vec![J::s("?")]),
            });
        }
        J::A(vec![J::N(p.local.as_usize() as i128), J::A(pr)])
    }

    fn scalar_int(&mut self, bits: u128, t: Ty<'tcx>) -> J {
        match *t.kind() {
            ty::Bool => J::O(vec![("c", J::s("bool")), ("v", J::B(bits != 0))]),
            ty::Char => J::O(vec![("c", J::s("char")), ("v", J::N(bits as i128))]),
            ty::Int(i) => {
                let w = i.bit_width().unwrap_or(64);
                let v = if w == 128 { bits as i128 } else { let sh = 128 - w as u32; ((bits << sh) as i128) >> sh };
                J::O(vec![("c", J::s("int")), ("v", J::N(v))])
            }
            ty::Uint(_) => J::O(vec![("c", J::s("int")), ("v", J::U(bits))]),
            _ => J::O(vec![("c", J::s("bits")), ("v", J::U(bits))]),
        }
    }

    fn cval(&mut self, cv: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        let tcx = self.tcx;
        let tid = self.ty(t);
        let opaque = |why: &str| J::O(vec![("c", J::s("opaque")), ("t", J::N(tid as i128)), ("why", J::s(why))]);
        if depth > 12 { return opaque("depth"); }
        match *t.kind() {
            ty::FnDef(..) => return J::O(vec![("c", J::s("fn")), ("t", J::N(tid as i128))]),
            ty::Closure(..) => return J::O(vec![("c", J::s("zst")), ("t", J::N(tid as i128))]),
            _ => {}
        }
        if let ConstValue::Scalar(Scalar::Int(i)) = cv {
            if matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_)) {
                return self.scalar_int(i.to_bits_unchecked(), t);
            }
        }
        if let ty::Ref(_, inner, _) = *t.kind() {
            match *inner.kind() {
                ty::Str => {
                    if let Some(b) = cv.try_get_slice_bytes_for_diagnostics(tcx) {
                        return J::O(vec![("c", J::s("str")), ("v", J::S(String::from_utf8_lossy(b).into_owned()))]);
                    }
                    return opaque("str");
                }
                ty::Slice(e) => {
                    if let Some((aid, off, n)) = self.slice_parts(cv) {
                        return self.slice_const(aid, off, n, e, tid, depth);
                    }
                    return opaque("slice");
                }
                _ => {
                    if let ConstValue::Scalar(Scalar::Ptr(p, _)) = cv {
                        let (prov, off) = p.into_raw_parts();
                        let aid = prov.alloc_id();
                        match tcx.global_alloc(aid) {
                            GlobalAlloc::Memory(_) => {
                                let v = self.cval(ConstValue::Indirect { alloc_id: aid, offset: off }, inner, depth + 1);
                                return J::O(vec![("c", J::s("ref")), ("v", v), ("t", J::N(tid as i128))]);
                            }
                            GlobalAlloc::Static(did) => {
                                self.add_static(did);
                                return J::O(vec![("c", J::s("static")), ("v", J::S(self.path(did))), ("t", J::N(tid as i128))]);
                            }
                            _ => return opaque("alloc"),
                        }
                    }
                    // an indirectly stored reference
                    if let ConstValue::Indirect { alloc_id, offset } = cv {
                        if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                            let sz = tcx.data_layout.pointer_size();
                            if let Ok(Scalar::Ptr(p, s)) = a.inner().read_scalar(&tcx, mir::interpret::AllocRange { start: offset, size: sz }, true) {
                                return self.cval(ConstValue::Scalar(Scalar::Ptr(p, s)), t, depth + 1);
                            }
                        }
                    }
                    return opaque("ref");
                }
            }
        }
        if let ty::RawPtr(..) = t.kind() {
            if let ConstValue::Scalar(Scalar::Ptr(p, _)) = cv {
                let (prov, _off) = p.into_raw_parts();
                if let GlobalAlloc::Static(did) = tcx.global_alloc(prov.alloc_id()) {
                    self.add_static(did);
                    return J::O(vec![("c", J::s("static")), ("v", J::S(self.path(did))), ("t", J::N(tid as i128))]);
                }
            }
            return opaque("rawptr");
        }
        if let ConstValue::Indirect { alloc_id, offset } = cv {
            if matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_)) {
                if let Some(GlobalAlloc::Memory(a)) = tcx.try_get_global_alloc(alloc_id) {
                    if let Ok(l) = tcx.layout_of(self.env().as_query_input(t)) {
                        if let Ok(Scalar::Int(i)) = a.inner().read_scalar(&tcx, mir::interpret::AllocRange { start: offset, size: l.size }, false) {
                            return self.scalar_int(i.to_bits_unchecked(), t);
                        }
                    }
                }
                return opaque("scalar");
            }
        }
        match *t.kind() {
            ty::Array(..) | ty::Tuple(..) | ty::Adt(..) => {
                if let ty::Adt(def, _) = *t.kind() {
                    if def.is_union() { return opaque("union"); }
                }
                if matches!(cv, ConstValue::ZeroSized) {
                    if let ty::Tuple(ts) = *t.kind() { if ts.is_empty() { return J::O(vec![("c", J::s("agg")), ("t", J::N(tid as i128)), ("v", J::A(vec![]))]); } }
                }
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(cv, t) {
                    let fs: Vec<J> = d.fields.iter().map(|(c, t)| self.cval(*c, *t, depth + 1)).collect();
                    let mut o = vec![("c", J::s("agg")), ("t", J::N(tid as i128)), ("v", J::A(fs))];
                    if let Some(v) = d.variant { o.push(("variant", J::N(v.as_usize() as i128))); }
                    return J::O(o);
                }
                opaque("agg")
            }
            _ => opaque("kind"),
        }
    }

    fn slice_parts(&self, cv: ConstValue) -> Option<(mir::interpret::AllocId, u64, u64)> {
        match cv {
            ConstValue::Slice { alloc_id, meta } => Some((alloc_id, 0, meta)),
            ConstValue::Indirect { alloc_id, offset } => {
                let a = self.tcx.try_get_global_alloc(alloc_id)?.unwrap_memory();
                let ps = self.tcx.data_layout.pointer_size();
                let p = a.inner().read_scalar(&self.tcx, mir::interpret::AllocRange { start: offset, size: ps }, true).ok()?;
                let n = a.inner().read_scalar(&self.tcx, mir::interpret::AllocRange { start: offset + ps, size: ps }, false).ok()?;
                if let (Scalar::Ptr(p, _), Scalar::Int(n)) = (p, n) {
                    let (prov, off) = p.into_raw_parts();
                    Some((prov.alloc_id(), off.bytes(), n.to_bits_unchecked() as u64))
                } else { None }
            }
            _ => None,
        }
    }

    fn slice_const(&mut self, aid: mir::interpret::AllocId, off: u64, n: u64, e: Ty<'tcx>, tid: usize, depth: usize) -> J {
        let tcx = self.tcx;
        let Ok(l) = tcx.layout_of(self.env().as_query_input(e)) else { return J::Null };
        if n > 4096 { return J::O(vec![("c", J::s("opaque")), ("t", J::N(tid as i128)), ("why", J::s("long"))]); }
        let mut v = vec![];
        for i in 0..n {
            let o = rustc_abi::Size::from_bytes(off + i * l.size.bytes());
            v.push(self.cval(ConstValue::Indirect { alloc_id: aid, offset: o }, e, depth + 1));
        }
        J::O(vec![("c", J::s("slice")), ("t", J::N(tid as i128)), ("v", J::A(v))])
    }

    fn add_static(&mut self, did: DefId) {
        if self.statics.contains_key(&did) { return; }
        self.statics.insert(did, J::Null);
        let tcx = self.tcx;
        let t = tcx.type_of(did).instantiate_identity();
        let t = tcx.normalize_erasing_regions(self.env(), t);
        let tid = self.ty(t);
        let mut o = vec![("t", J::N(tid as i128)), ("local", J::B(did.is_local()))];
        if did.is_local() {
            let body = tcx.mir_for_ctfe(did);
            let b = self.body(body, &format!("static {}", self.path(did)));
            o.push(("body", b));
            o.push(("mutable", J::B(tcx.is_mutable_static(did))));
        }
        self.statics.insert(did, J::O(o));
    }

    fn operand(&mut self, o: &mir::Operand<'tcx>) -> J {
        match o {
            mir::Operand::Copy(p) => J::A(vec![J::s("c"), self.place(p)]),
            mir::Operand::Move(p) => J::A(vec![J::s("m"), self.place(p)]),
            mir::Operand::Constant(c) => {
                let t = c.const_.ty();
                let tid = self.ty(t);
                let mut name = J::Null;
                if let mir::Const::Unevaluated(u, _) = c.const_ {
                    if u.promoted.is_none() { name = J::S(self.path(u.def)); }
                }
                let v = match c.const_.eval(self.tcx, self.env(), c.span) {
                    Ok(cv) => self.cval(cv, t, 0),
                    Err(_) => J::O(vec![("c", J::s("opaque")), ("t", J::N(tid as i128)), ("why", J::s("eval"))]),
                };
                J::A(vec![J::s("k"), J::N(tid as i128), v, name])
            }
            _ => J::A(vec![J::s("rc")]),
        }
    }

    fn rvalue(&mut self, r: &mir::Rvalue<'tcx>) -> J {
        use mir::Rvalue::*;
        match r {
            Use(o, _) => J::A(vec![J::s("use"), self.operand(o)]),
            Repeat(o, n) => {
                let n = n.try_to_target_usize(self.tcx).map(|n| J::N(n as i128)).unwrap_or(J::Null);
                J::A(vec![J::s("rep"), self.operand(o), n])
            }
            Ref(_, k, p) => J::A(vec![J::s("ref"), J::s(if matches!(k, mir::BorrowKind::Mut { .. }) { "mut" } else { "shr" }), self.place(p)]),
            RawPtr(_, p) => J::A(vec![J::s("raw"), self.place(p)]),
            Cast(k, o, t) => { let o = self.operand(o); J::A(vec![J::s("cast"), J::S(format!("{:?}", k)), o, J::N(self.ty(*t) as i128)]) }
            BinaryOp(op, b) => J::A(vec![J::s("bin"), J::S(format!("{:?}", op)), self.operand(&b.0), self.operand(&b.1)]),
            UnaryOp(op, o) => J::A(vec![J::s("un"), J::S(format!("{:?}", op)), self.operand(o)]),
            Discriminant(p) => J::A(vec![J::s("discr"), self.place(p)]),
            Aggregate(k, fs) => {
                let f: Vec<J> = fs.iter().map(|o| self.operand(o)).collect();
                let kj = match &**k {
                    mir::AggregateKind::Array(t) => J::A(vec![J::s("array"), J::N(self.ty(*t) as i128)]),
                    mir::AggregateKind::Tuple => J::A(vec![J::s("tuple")]),
                    mir::AggregateKind::Adt(did, vi, args, _, _) => {
                        let t = Ty::new_adt(self.tcx, self.tcx.adt_def(*did), *args);
                        J::A(vec![J::s("adt"), J::N(self.ty(t) as i128), J::N(vi.as_usize() as i128)])
                    }
                    mir::AggregateKind::Closure(did, args) => {
                        let t = Ty::new_closure(self.tcx, *did, *args);
                        J::A(vec![J::s("closure"), J::N(self.ty(t) as i128)])
                    }
                    _ => J::A(vec![J::s("?")]),
                };
                J::A(vec![J::s("agg"), kj, J::A(f)])
            }
            CopyForDeref(p) => J::A(vec![J::s("use"), J::A(vec![J::s("c"), self.place(p)])]),
            Reborrow(_, m, p) => J::A(vec![J::s("ref"), J::s(if m.is_mut() { "mut" } else { "shr" }), self.place(p)]),
            ThreadLocalRef(d) => J::A(vec![J::s("tls"), J::S(self.path(*d))]),
            _ => J::A(vec![J::s("?"), J::S(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, body: &mir::Body<'tcx>, what: &str) -> J {
        let mut locals = vec![];
        for l in body.local_decls.iter() { locals.push(J::N(self.ty(l.ty) as i128)); }
        let mut names = vec![];
        for v in body.var_debug_info.iter() {
            if let mir::VarDebugInfoContents::Place(p) = &v.value {
                let arg = v.argument_index.map(|n| J::N(n as i128)).unwrap_or(J::Null);
                names.push(J::A(vec![J::S(v.name.to_string()), self.place(p), arg]));
            }
        }
        let mut blocks = vec![];
        for bb in body.basic_blocks.iter() {
            let mut ss = vec![];
            for s in bb.statements.iter() {
                use mir::StatementKind as SK;
                match &s.kind {
                    SK::Assign(b) => {
                        let p = self.place(&b.0);
                        let r = self.rvalue(&b.1);
                        let sp = self.span(s.source_info.span);
                        ss.push(J::A(vec![J::s("="), p, r, sp]));
                    }
                    SK::SetDiscriminant { place, variant_index } => ss.push(J::A(vec![J::s("sd"), self.place(place), J::N(variant_index.as_usize() as i128)])),
                    SK::StorageDead(l) => ss.push(J::A(vec![J::s("dead"), J::N(l.as_usize() as i128)])),
                    SK::StorageLive(l) => ss.push(J::A(vec![J::s("live"), J::N(l.as_usize() as i128)])),
                    SK::Intrinsic(i) => {
                        if let mir::NonDivergingIntrinsic::Assume(o) = &**i {
                            let o = self.operand(o);
                            ss.push(J::A(vec![J::s("assume"), o]));
                        } else {
                            ss.push(J::A(vec![J::s("?s"), J::S(format!("{:?}", s.kind))]));
                        }
                    }
                    _ => {}
                }
            }
            let term = bb.terminator();
            let sp = self.span(term.source_info.span);
            use mir::TerminatorKind as TK;
            let bid = |b: mir::BasicBlock| J::N(b.as_usize() as i128);
            let t = match &term.kind {
                TK::Goto { target, .. } => J::A(vec![J::s("goto"), bid(*target)]),
                TK::SwitchInt { discr, targets } => {
                    let mut ts = vec![];
                    for (v, b) in targets.iter() { ts.push(J::A(vec![J::U(v), bid(b)])); }
                    let dt = discr.ty(body, self.tcx);
                    let dti = self.ty(dt);
                    J::A(vec![J::s("switch"), self.operand(discr), J::A(ts), bid(targets.otherwise()), J::N(dti as i128)])
                }
                TK::Return => J::A(vec![J::s("ret")]),
                TK::Unreachable => J::A(vec![J::s("unreach")]),
                TK::Drop { place, target, .. } => J::A(vec![J::s("drop"), self.place(place), bid(*target)]),
                TK::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(body, self.tcx);
                    let c = match *ft.kind() {
                        ty::FnDef(did, ga) => self.callee(did, ga.no_bound_vars().unwrap(), term.source_info.span),
                        _ => J::O(vec![("kind", J::s("indirect")), ("op", self.operand(func))]),
                    };
                    let a: Vec<J> = args.iter().map(|a| self.operand(&a.node)).collect();
                    let d = self.place(destination);
                    let tg = target.map(bid).unwrap_or(J::Null);
                    J::A(vec![J::s("call"), c, J::A(a), d, tg])
                }
                TK::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops): (String, Vec<&mir::Operand<'tcx>>) = match &**msg {
                        mir::AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        mir::AssertKind::Overflow(op, a, b) => (format!("overflow:{:?}", op), vec![a, b]),
                        mir::AssertKind::OverflowNeg(a) => ("overflow:Neg".into(), vec![a]),
                        mir::AssertKind::DivisionByZero(a) => ("divzero".into(), vec![a]),
                        mir::AssertKind::RemainderByZero(a) => ("remzero".into(), vec![a]),
                        _ => ("other".into(), vec![]),
                    };
                    let ops: Vec<J> = ops.into_iter().map(|o| self.operand(o)).collect();
                    J::A(vec![J::s("assert"), self.operand(cond), J::B(*expected), J::S(mk), J::A(ops), bid(*target)])
                }
                TK::FalseEdge { real_target, .. } => J::A(vec![J::s("goto"), bid(*real_target)]),
                TK::FalseUnwind { real_target, .. } => J::A(vec![J::s("goto"), bid(*real_target)]),
                TK::UnwindResume | TK::UnwindTerminate(_) => J::A(vec![J::s("unwind")]),
                o => J::A(vec![J::s("?"), J::S(format!("{:?}", o))]),
            };
            blocks.push(J::O(vec![("s", J::A(ss)), ("t", t), ("sp", sp), ("cleanup", J::B(bb.is_cleanup))]));
        }
        J::O(vec![
            ("what", J::s(what)),
            ("argc", J::N(body.arg_count as i128)),
            ("spread", body.spread_arg.map(|l| J::N(l.as_usize() as i128)).unwrap_or(J::Null)),
            ("locals", J::A(locals)), ("names", J::A(names)), ("blocks", J::A(blocks)),
            ("span", self.span(body.span)),
        ])
    }

    fn dump_instance(&mut self, i: Instance<'tcx>, id: usize) {
        if !self.done.insert(id) { return; }
        let tcx = self.tcx;
        let did = i.def_id();
        let path = self.path(did);
        let a: Vec<J> = i.args.types().map(|t| J::N(self.ty(t) as i128)).collect();
        let full = ty::print::with_no_trimmed_paths!(tcx.def_path_str_with_args(did, i.args));
        let mut o = vec![("path", J::S(path.clone())), ("full", J::S(full)), ("local", J::B(did.is_local())), ("args", J::A(a))];
        o.push(("defkind", J::S(format!("{:?}", tcx.def_kind(did)))));
        if let Some(p) = tcx.opt_parent(did) {
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate(tcx, i.args);
                let st = tcx.normalize_erasing_regions(self.env(), st);
                o.push(("impl_self", J::N(self.ty(st) as i128)));
                if of_trait {
                    let tr = tcx.impl_trait_ref(p).skip_binder().def_id;
                    o.push(("impl_trait", J::S(self.path(tr))));
                    o.push(("derived", J::B(tcx.is_automatically_derived(p))));
                }
            }
            if tcx.is_closure_like(did) { o.push(("closure_of", J::S(self.path(tcx.typeck_root_def_id(did))))); }
        }
        if let Some(n) = tcx.opt_item_name(did) { o.push(("name", J::S(n.to_string()))); }
        let shim = !matches!(i.def, InstanceKind::Item(_));
        o.push(("shim", J::B(shim)));
        let avail = if shim { false } else { tcx.is_mir_available(did) && !tcx.is_foreign_item(did) };
        let take = avail && (did.is_local() || (!self.stopped(&path) && self.nonlocal < NONLOCAL_CAP));
        if take {
            if !did.is_local() { self.nonlocal += 1; }
            let b = tcx.instance_mir(i.def).clone();
            let b = i.instantiate_mir_and_normalize_erasing_regions(tcx, self.env(), EarlyBinder::bind(tcx, b));
            let j = self.body(&b, &path);
            o.push(("body", j));
        }
        self.bodies.push((id, J::O(o)));
    }

    fn drain(&mut self) {
        // local bodies first so that the cap only ever affects library code
        let mut later = VecDeque::new();
        loop {
            while let Some((i, id)) = self.queue.pop_front() {
                if i.def_id().is_local() { self.dump_instance(i, id); } else { later.push_back((i, id)); }
            }
            match later.pop_front() {
                Some((i, id)) => self.dump_instance(i, id),
                None => break,
            }
        }
    }

    fn run(&mut self) -> J {
        let tcx = self.tcx;
        let mut entry = J::Null;
        if let Some((did, _)) = tcx.entry_fn(()) {
            let id = self.inst(Instance::mono(tcx, did));
            entry = J::N(id as i128);
        }
        // address types: every local type implementing the crate's address trait
        let mut addr_types: Vec<Ty<'tcx>> = vec![];
        let mut impls = vec![];
        let mut fns: Vec<DefId> = vec![];
        for id in tcx.hir_crate_items(()).definitions() {
            let did = id.to_def_id();
            match tcx.def_kind(did) {
                DefKind::Fn | DefKind::AssocFn => fns.push(did),
                DefKind::Impl { of_trait: true } => {
                    let h = tcx.impl_trait_ref(did).instantiate_identity();
                    let _ = &h;
                    let tr = tcx.impl_trait_ref(did).skip_binder();
                    if tr.def_id.is_local() && self.path(tr.def_id).ends_with("IpAddress") {
                        let t = tr.self_ty();
                        if !addr_types.contains(&t) { addr_types.push(t); }
                    }
                    impls.push(did);
                }
                DefKind::Static { .. } => self.add_static(did),
                _ => {}
            }
        }
        let mut fnlist = vec![];
        for did in fns {
            if !tcx.is_mir_available(did) { continue; }
            let g = tcx.generics_of(did);
            let mut params: Vec<String> = vec![];
            let n = g.count();
            let mut ok = true;
            for k in 0..n {
                let p = g.param_at(k, tcx);
                match p.kind {
                    ty::GenericParamDefKind::Lifetime => {}
                    ty::GenericParamDefKind::Type { .. } => params.push(p.name.to_string()),
                    _ => ok = false,
                }
            }
            let mut ids = vec![];
            if ok && params.is_empty() {
                let args = ty::GenericArgs::for_item(tcx, did, |_, _| tcx.lifetimes.re_erased.into());
                let id = self.inst(Instance::new_raw(did, args));
                ids.push(J::N(id as i128));
            } else if ok && params.len() == 1 && params[0] != "Self" {
                for t in addr_types.clone() {
                    let args = ty::GenericArgs::for_item(tcx, did, |p, _| match p.kind {
                        ty::GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                        _ => GenericArg::from(t),
                    });
                    // does the parameter's bound admit an address type?
                    if !tcx.instantiate_and_check_impossible_clauses((did, args)) {
                        let id = self.inst(Instance::new_raw(did, args));
                        ids.push(J::N(id as i128));
                    }
                }
            }
            fnlist.push(J::O(vec![("path", J::S(self.path(did))), ("params", J::A(params.into_iter().map(J::S).collect())), ("insts", J::A(ids)),
                ("vis", J::S(format!("{:?}", tcx.visibility(did).is_public())))]));
        }
        self.drain();
        let mut impl_j = vec![];
        for did in impls {
            let tr = tcx.impl_trait_ref(did).skip_binder();
            let st = ty::print::with_no_trimmed_paths!(tr.self_ty().to_string());
            impl_j.push(J::O(vec![("trait", J::S(self.path(tr.def_id))), ("self", J::S(st)), ("derived", J::B(tcx.is_automatically_derived(did))),
               ("span", self.span(tcx.def_span(did)))]));
        }
        let mut at = vec![];
        for t in addr_types.clone() { at.push(J::N(self.ty(t) as i128)); }
        self.drain();
        let mut st = vec![];
        let statics = std::mem::take(&mut self.statics);
        for (d, j) in statics { st.push(J::A(vec![J::S(self.path(d)), j])); }
        self.drain();
        let mut b = std::mem::take(&mut self.bodies);
        b.sort_by_key(|x| x.0);
        let insts: Vec<J> = b.into_iter().map(|(id, j)| J::A(vec![J::N(id as i128), j])).collect();
        J::O(vec![
            ("version", J::N(1)), ("entry", entry), ("addr_types", J::A(at)),
            ("types", J::A(std::mem::take(&mut self.type_defs))),
            ("fns", J::A(fnlist)), ("impls", J::A(impl_j)), ("statics", J::A(st)), ("insts", J::A(insts)),
            ("nonlocal", J::N(self.nonlocal as i128)),
        ])
    }
}

fn main() {
    // invoked as RUSTC_WORKSPACE_WRAPPER: argv = [self, rustc, args...]
    let mut args: Vec<String> = std::env::args().collect();
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) { args.remove(1); }
    args.push("-Zmir-opt-level=0".into());
    args.push("-Zalways-encode-mir=no".into());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
