use std::collections::{HashMap, HashSet, VecDeque};

use rustc_abi::{FieldIdx, Size, VariantIdx};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgs, GenericArgsRef, GenericParamDefKind, Instance, InstanceKind,
    Ty, TyCtxt, TypeVisitableExt, TypingEnv,
};
use rustc_span::{Span, DUMMY_SP};

use crate::json::J;

/// Standard-library modules whose bodies are included in the dump (small, straight-line
/// combinators that the analyser interprets instead of modelling).
const STD_BODIES: &[&str] = &[
    "core::option::",
    "core::result::",
    "core::ops::",
    "core::convert::",
    "core::cmp::",
    "core::bool::",
    "core::borrow::",
    "core::array::",
    "core::default::",
    "core::mem::",
    "core::clone::",
    "core::num::",
    "core::tuple::",
    "std::option::",
    "std::result::",
    "std::ops::",
    "std::convert::",
    "std::cmp::",
    "std::bool::",
    "std::borrow::",
    "std::default::",
    "std::mem::",
    "std::clone::",
    "num_traits::",
    "num_enum::",
    "alloc::borrow::",
    "core::ascii::",
    "core::char::",
];

pub struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: HashMap<Ty<'tcx>, usize>,
    type_out: Vec<Option<J>>,
    type_queue: VecDeque<(usize, Ty<'tcx>)>,
    queue: VecDeque<Instance<'tcx>>,
    seen: HashSet<Instance<'tcx>>,
    externals: HashMap<String, usize>,
}

fn path(tcx: TyCtxt<'_>, d: DefId) -> String {
    with_no_trimmed_paths!(tcx.def_path_str(d))
}

fn obj(v: Vec<(&'static str, J)>) -> J {
    J::Obj(v)
}

impl<'tcx> Cx<'tcx> {
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        if sp.is_dummy() {
            return J::Null;
        }
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let name = format!("{}", lo.file.name.prefer_local_unconditionally());
        J::s(format!("{}:{}", name, lo.line))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.types.get(&t) {
            return i;
        }
        let i = self.type_out.len();
        self.types.insert(t, i);
        self.type_out.push(None);
        self.type_queue.push_back((i, t));
        i
    }
    fn tyj(&mut self, t: Ty<'tcx>) -> J {
        J::n(self.ty(t) as i128)
    }

    fn key(&self, i: Instance<'tcx>) -> String {
        self.tcx.symbol_name(i).name.to_string()
    }

    /// Key for an instance, queueing its body.
    fn want(&mut self, i: Instance<'tcx>) -> J {
        let k = self.key(i);
        if self.seen.insert(i) {
            self.queue.push_back(i);
        }
        J::s(k)
    }

    fn def_info(&self, d: DefId) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut v = vec![
            ("path", J::s(path(tcx, d))),
            ("krate", J::s(tcx.crate_name(d.krate).to_string())),
        ];
        if let Some(t) = tcx.trait_of_assoc(d) {
            v.push(("of_trait", J::s(path(tcx, t))));
        }
        if let Some(imp) = tcx.impl_of_assoc(d) {
            if let Some(tr) = tcx.impl_opt_trait_id(imp) {
                v.push(("impl_trait", J::s(path(tcx, tr))));
                v.push(("derived", J::Bool(tcx.is_automatically_derived(imp))));
            }
        }
        if let Some(n) = tcx.opt_item_name(d) {
            v.push(("name", J::s(n.to_string())));
        }
        v
    }

    fn args_tys(&mut self, args: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for a in args.iter() {
            if let Some(t) = a.as_type() {
                v.push(self.tyj(t));
            } else if let Some(c) = a.as_const() {
                let n = c.try_to_target_usize(self.tcx);
                v.push(match n {
                    Some(n) => obj(vec![("const", J::n(n as i128))]),
                    None => J::Null,
                });
            }
        }
        J::Arr(v)
    }

    fn type_json(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let disp = J::s(with_no_trimmed_paths!(t.to_string()));
        let mut v: Vec<(&'static str, J)> = vec![("s", disp)];
        match *t.kind() {
            ty::Bool => v.push(("k", J::s("bool"))),
            ty::Char => v.push(("k", J::s("char"))),
            ty::Int(i) => {
                v.push(("k", J::s("int")));
                v.push(("bits", J::n(i.bit_width().unwrap_or(64) as i128)));
            }
            ty::Uint(i) => {
                v.push(("k", J::s("uint")));
                v.push(("bits", J::n(i.bit_width().unwrap_or(64) as i128)));
            }
            ty::Float(_) => v.push(("k", J::s("float"))),
            ty::Str => v.push(("k", J::s("str"))),
            ty::Never => v.push(("k", J::s("never"))),
            ty::Array(e, n) => {
                v.push(("k", J::s("array")));
                v.push(("elem", self.tyj(e)));
                v.push((
                    "len",
                    n.try_to_target_usize(tcx).map_or(J::Null, |n| J::n(n as i128)),
                ));
            }
            ty::Slice(e) => {
                v.push(("k", J::s("slice")));
                v.push(("elem", self.tyj(e)));
            }
            ty::RawPtr(e, m) => {
                v.push(("k", J::s("ptr")));
                v.push(("to", self.tyj(e)));
                v.push(("mut", J::Bool(m.is_mut())));
            }
            ty::Ref(_, e, m) => {
                v.push(("k", J::s("ref")));
                v.push(("to", self.tyj(e)));
                v.push(("mut", J::Bool(m.is_mut())));
            }
            ty::Tuple(ts) => {
                v.push(("k", J::s("tuple")));
                let fs = ts.iter().map(|x| self.tyj(x)).collect();
                v.push(("fields", J::Arr(fs)));
            }
            ty::Adt(def, args) => {
                v.push(("k", J::s("adt")));
                v.push(("path", J::s(path(tcx, def.did()))));
                v.push(("krate", J::s(tcx.crate_name(def.did().krate).to_string())));
                v.push((
                    "adt",
                    J::s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                v.push(("box", J::Bool(def.is_box())));
                v.push(("args", self.args_tys(args)));
                if def.is_enum() {
                    let repr = def.repr().discr_type();
                    let rt = {
                        use rustc_middle::ty::util::IntTypeExt;
                        repr.to_ty(tcx)
                    };
                    v.push(("repr", self.tyj(rt)));
                }
                let mut vars = vec![];
                for (vi, var) in def.variants().iter_enumerated() {
                    let discr = if def.is_enum() {
                        let d = def.discriminant_for_variant(tcx, vi);
                        // sign-extend
                        let bits = match d.ty.kind() {
                            ty::Int(i) => Some(i.bit_width().unwrap_or(64)),
                            _ => None,
                        };
                        let val = match bits {
                            Some(b) if b < 128 => {
                                let x = d.val as i128;
                                let sh = 128 - b as u32;
                                (x << sh) >> sh
                            }
                            _ => d.val as i128,
                        };
                        J::n(val)
                    } else {
                        J::Null
                    };
                    let mut fs = vec![];
                    for f in var.fields.iter() {
                        let ft = f.ty(tcx, args);
                        let ft = self.norm(ft.skip_norm_wip());
                        fs.push(obj(vec![
                            ("name", J::s(f.name.to_string())),
                            ("ty", self.tyj(ft)),
                            ("pub", J::Bool(f.vis.is_public())),
                        ]));
                    }
                    vars.push(obj(vec![
                        ("name", J::s(var.name.to_string())),
                        ("discr", discr),
                        ("fields", J::Arr(fs)),
                    ]));
                }
                v.push(("variants", J::Arr(vars)));
            }
            ty::Closure(did, args) => {
                v.push(("k", J::s("closure")));
                v.push(("path", J::s(path(tcx, did))));
                let c = args.as_closure();
                let ups = c.upvar_tys().iter().map(|x| self.tyj(x)).collect();
                v.push(("upvars", J::Arr(ups)));
                v.push(("ckind", J::s(format!("{:?}", c.kind()))));
                let inst = Instance::new_raw(did, args);
                if !inst.args.has_param() {
                    v.push(("body", self.want(inst)));
                }
            }
            ty::FnDef(did, binder) => {
                v.push(("k", J::s("fndef")));
                let args = binder.skip_binder();
                v.push(("path", J::s(path(tcx, did))));
                v.push(("callee", self.callee(did, args)));
            }
            ty::FnPtr(..) => v.push(("k", J::s("fnptr"))),
            ty::Dynamic(..) => v.push(("k", J::s("dyn"))),
            ty::Param(_) => v.push(("k", J::s("param"))),
            _ => v.push(("k", J::s("other"))),
        }
        obj(v)
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        self.tcx
            .try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    /// Trait methods of workspace types that a foreign generic function may call back
    /// through its bounds (`str::parse::<T>` calls `<T as FromStr>::from_str`).
    fn callbacks(&mut self, inst: Instance<'tcx>) -> Vec<J> {
        let tcx = self.tcx;
        let did = inst.def_id();
        let mut out = vec![];
        if tcx.crate_name(did.krate).as_str().starts_with("llvm_") || self.want_body(inst) {
            return out;
        }
        let clauses: Vec<_> = tcx
            .clauses_of(did)
            .instantiate(tcx, inst.args)
            .clauses
            .into_iter()
            .map(ty::Unnormalized::skip_norm_wip)
            .collect();
        for c in clauses {
            let Some(tr) = c.as_trait_clause() else { continue };
            let tr = tr.skip_binder().trait_ref;
            let name = path(tcx, tr.def_id);
            let last = name.rsplit("::").next().unwrap_or("");
            if !["FromStr", "Ord", "PartialOrd", "PartialEq", "Eq", "Hash", "Default"].contains(&last) {
                continue;
            }
            let ours = match tr.self_ty().kind() {
                ty::Adt(d, _) => tcx.crate_name(d.did().krate).as_str().starts_with("llvm_"),
                _ => false,
            };
            if !ours || tr.args.has_param() {
                continue;
            }
            for item in tcx.associated_items(tr.def_id).in_definition_order() {
                if !item.is_fn() {
                    continue;
                }
                let gs = tcx.generics_of(item.def_id);
                if gs.own_params.iter().any(|p| !matches!(p.kind, GenericParamDefKind::Lifetime)) {
                    continue;
                }
                let args = tr.args.extend_to(tcx, item.def_id, |_, _| tcx.lifetimes.re_erased.into());
                let args = tcx.erase_and_anonymize_regions(args);
                if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, item.def_id, args) {
                    if tcx.crate_name(i.def_id().krate).as_str().starts_with("llvm_") {
                        let k = self.want(i);
                        out.push(k);
                    }
                }
            }
        }
        out
    }

    /// Describe a callee: generic definition, argument types, and resolved instance.
    fn callee(&mut self, did: DefId, args: GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let mut v = self.def_info(did);
        v.push(("args", self.args_tys(args)));
        match tcx.def_kind(did) {
            DefKind::Fn | DefKind::AssocFn => {}
            DefKind::Ctor(of, _) => {
                // tuple struct / variant constructor used as a function
                let (adt, vidx) = match of {
                    rustc_hir::def::CtorOf::Struct => (tcx.parent(did), 0usize),
                    rustc_hir::def::CtorOf::Variant => {
                        let var = tcx.parent(did);
                        let adt = tcx.parent(var);
                        (adt, tcx.adt_def(adt).variant_index_with_id(var).as_usize())
                    }
                };
                let t = tcx.type_of(adt).instantiate(tcx, args).skip_norm_wip();
                let t = self.norm(t);
                v.push(("ctor", self.tyj(t)));
                v.push(("variant", J::n(vidx as i128)));
                return obj(v);
            }
            _ => return obj(v),
        }
        if args.has_param() {
            return obj(v);
        }
        match Instance::try_resolve(tcx, self.env, did, args) {
            Ok(Some(inst)) => {
                v.push(("res", self.want(inst)));
                let rd = inst.def_id();
                let kind = match inst.def {
                    InstanceKind::Item(_) => "item".to_string(),
                    InstanceKind::Intrinsic(_) => "intrinsic".to_string(),
                    InstanceKind::Virtual(..) => "virtual".to_string(),
                    InstanceKind::Shim(s) => format!("shim:{:?}", s).chars().take(40).collect(),
                    _ => "other".to_string(),
                };
                v.push(("rkind", J::s(kind)));
                v.push(("rpath", J::s(path(tcx, rd))));
                v.push(("rkrate", J::s(tcx.crate_name(rd.krate).to_string())));
                v.push((
                    "rself",
                    match tcx.impl_of_assoc(rd) {
                        Some(imp) => {
                            let t = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                            J::s(with_no_trimmed_paths!(t.to_string()))
                        }
                        None => J::Null,
                    },
                ));
                v.push(("rargs", self.args_tys(inst.args)));
                let via = self.callbacks(inst);
                if !via.is_empty() {
                    v.push(("via", J::Arr(via)));
                }
                v.push(("unsafe", J::Bool({
                    let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                    sig.safety().is_unsafe()
                })));
            }
            _ => {}
        }
        obj(v)
    }

    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let tcx = self.tcx;
        let mut proj = vec![];
        let mut pt = PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let j = match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    J::Arr(vec![J::s("f"), J::n(f.as_u32() as i128), self.tyj(t)])
                }
                ProjectionElem::Index(l) => {
                    J::Arr(vec![J::s("i"), J::n(l.as_u32() as i128)])
                }
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("ci"),
                    J::n(offset as i128),
                    J::n(min_length as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => J::Arr(vec![
                    J::s("sub"),
                    J::n(from as i128),
                    J::n(to as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Downcast(_, v) => {
                    J::Arr(vec![J::s("v"), J::n(v.as_u32() as i128)])
                }
                ProjectionElem::PhantomDeref => J::s("*"),
                ProjectionElem::OpaqueCast(_) => J::s("cast"),
                ProjectionElem::UnwrapUnsafeBinder(_) => J::s("unwrap"),
            };
            proj.push(j);
            pt = pt.projection_ty(tcx, e);
        }
        J::Arr(vec![J::n(p.local.as_u32() as i128), J::Arr(proj), self.tyj(pt.ty)])
    }

    fn scalar(&mut self, s: Scalar, t: Ty<'tcx>, depth: usize) -> J {
        match s {
            Scalar::Int(i) => {
                let bits = i.to_bits(i.size());
                let val = if t.is_signed() {
                    i.size().sign_extend(bits)
                } else {
                    bits as i128
                };
                match t.kind() {
                    ty::Bool => J::Arr(vec![J::s("bool"), J::Bool(bits != 0)]),
                    ty::Char => J::Arr(vec![J::s("char"), J::n(val)]),
                    ty::Int(_) | ty::Uint(_) => {
                        J::Arr(vec![J::s("int"), J::n(val)])
                    }
                    ty::Adt(..) | ty::Tuple(_) => self.destructure(ConstValue::Scalar(s), t, depth),
                    _ => J::Arr(vec![J::s("raw"), J::n(val)]),
                }
            }
            Scalar::Ptr(p, _) => {
                if let ty::Adt(..) | ty::Tuple(_) = t.kind() {
                    return self.destructure(ConstValue::Scalar(s), t, depth);
                }
                let (prov, off) = p.prov_and_relative_offset();
                let aid = prov.alloc_id();
                match t.builtin_deref(true) {
                    Some(inner) => {
                        let v = self.pointee(aid, off, inner, depth);
                        J::Arr(vec![J::s("ref"), v])
                    }
                    None => J::Arr(vec![J::s("opaque")]),
                }
            }
        }
    }

    fn pointee(&mut self, aid: AllocId, off: Size, inner: Ty<'tcx>, depth: usize) -> J {
        match self.tcx.try_get_global_alloc(aid) {
            Some(GlobalAlloc::Memory(_)) => {
                let cv = ConstValue::Indirect { alloc_id: aid, offset: off };
                self.constval(cv, inner, depth + 1)
            }
            Some(GlobalAlloc::Static(d)) => {
                J::Arr(vec![J::s("static"), J::s(path(self.tcx, d))])
            }
            _ => J::Arr(vec![J::s("opaque")]),
        }
    }

    fn destructure(&mut self, c: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 12 {
            return J::Arr(vec![J::s("opaque")]);
        }
        if let ty::Adt(d, _) = t.kind() {
            if d.is_union() {
                return J::Arr(vec![J::s("opaque")]);
            }
        }
        match self.tcx.try_destructure_mir_constant_for_user_output(c, t) {
            Some(d) => {
                let fs = d
                    .fields
                    .iter()
                    .map(|(v, t)| {
                        let j = self.constval(*v, *t, depth + 1);
                        j
                    })
                    .collect();
                J::Arr(vec![
                    J::s("agg"),
                    d.variant.map_or(J::n(0i128), |v| J::n(v.as_u32() as i128)),
                    J::Arr(fs),
                ])
            }
            None => J::Arr(vec![J::s("opaque")]),
        }
    }

    fn slice_bytes(&mut self, aid: AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(aid) {
            Some(GlobalAlloc::Memory(m)) => {
                let r = (off as usize)..((off + len) as usize);
                if r.end > m.inner().len() {
                    return None;
                }
                Some(m.inner().inspect_with_uninit_and_ptr_outside_interpreter(r).to_vec())
            }
            _ => None,
        }
    }

    fn constval(&mut self, c: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        if depth > 12 {
            return J::Arr(vec![J::s("opaque")]);
        }
        match c {
            ConstValue::ZeroSized => J::Arr(vec![J::s("zst")]),
            ConstValue::Scalar(s) => self.scalar(s, t, depth),
            ConstValue::Slice { alloc_id, meta } => self.fat(alloc_id, 0, meta, t, depth),
            ConstValue::Indirect { alloc_id, offset } => match t.kind() {
                ty::Ref(_, inner, _) | ty::RawPtr(inner, _)
                    if matches!(inner.kind(), ty::Str | ty::Slice(_)) =>
                {
                    // read the fat pointer
                    if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) {
                        let a = m.inner();
                        let o = offset.bytes() as usize;
                        let target = a.provenance().ptrs().get(&offset).map(|p| p.alloc_id());
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 16);
                        let base = u64::from_le_bytes(b[0..8].try_into().unwrap());
                        let len = u64::from_le_bytes(b[8..16].try_into().unwrap());
                        if let Some(tid) = target {
                            return self.fat(tid, base, len, t, depth);
                        }
                    }
                    J::Arr(vec![J::s("opaque")])
                }
                ty::Ref(_, inner, _) => {
                    if let Some(GlobalAlloc::Memory(m)) = self.tcx.try_get_global_alloc(alloc_id) {
                        let a = m.inner();
                        let o = offset.bytes() as usize;
                        let target = a.provenance().ptrs().get(&offset).map(|p| p.alloc_id());
                        let b = a.inspect_with_uninit_and_ptr_outside_interpreter(o..o + 8);
                        let base = u64::from_le_bytes(b[0..8].try_into().unwrap());
                        if let Some(tid) = target {
                            let inner = *inner;
                            let v = self.pointee(tid, Size::from_bytes(base), inner, depth);
                            return J::Arr(vec![J::s("ref"), v]);
                        }
                    }
                    J::Arr(vec![J::s("opaque")])
                }
                ty::Array(e, n) if matches!(e.kind(), ty::Uint(_) | ty::Int(_)) => {
                    let n = n.try_to_target_usize(self.tcx).unwrap_or(0);
                    let w = match e.kind() {
                        ty::Uint(u) => u.bit_width().unwrap_or(64),
                        ty::Int(u) => u.bit_width().unwrap_or(64),
                        _ => 8,
                    } / 8;
                    match self.slice_bytes(alloc_id, offset.bytes(), n * w) {
                        Some(b) => {
                            let elems = b
                                .chunks(w as usize)
                                .map(|ch| {
                                    let mut x: u128 = 0;
                                    for (i, by) in ch.iter().enumerate() {
                                        x |= (*by as u128) << (8 * i);
                                    }
                                    let mut y = x as i128;
                                    if let ty::Int(_) = e.kind() {
                                        let sh = 128 - (w * 8) as u32;
                                        y = (y << sh) >> sh;
                                    }
                                    J::Arr(vec![J::s("int"), J::n(y)])
                                })
                                .collect();
                            J::Arr(vec![J::s("agg"), J::n(0i128), J::Arr(elems)])
                        }
                        None => J::Arr(vec![J::s("opaque")]),
                    }
                }
                ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                    let w = match t.kind() {
                        ty::Bool => 1,
                        ty::Char => 4,
                        ty::Int(u) => u.bit_width().unwrap_or(64) / 8,
                        ty::Uint(u) => u.bit_width().unwrap_or(64) / 8,
                        _ => 1,
                    };
                    match self.slice_bytes(alloc_id, offset.bytes(), w) {
                        Some(b) => {
                            let mut x: u128 = 0;
                            for (i, by) in b.iter().enumerate() {
                                x |= (*by as u128) << (8 * i);
                            }
                            let mut y = x as i128;
                            if let ty::Int(_) = t.kind() {
                                let sh = 128 - (w * 8) as u32;
                                y = (y << sh) >> sh;
                            }
                            match t.kind() {
                                ty::Bool => J::Arr(vec![J::s("bool"), J::Bool(x != 0)]),
                                ty::Char => J::Arr(vec![J::s("char"), J::n(y)]),
                                _ => J::Arr(vec![J::s("int"), J::n(y)]),
                            }
                        }
                        None => J::Arr(vec![J::s("opaque")]),
                    }
                }
                ty::Adt(..) | ty::Tuple(_) | ty::Array(..) => self.destructure(c, t, depth),
                ty::Str | ty::Slice(_) => J::Arr(vec![J::s("opaque")]),
                _ => J::Arr(vec![J::s("opaque")]),
            },
        }
    }

    fn fat(&mut self, aid: AllocId, base: u64, len: u64, t: Ty<'tcx>, depth: usize) -> J {
        let inner = match t.builtin_deref(true) {
            Some(i) => i,
            None => return J::Arr(vec![J::s("opaque")]),
        };
        match inner.kind() {
            ty::Str => match self.slice_bytes(aid, base, len) {
                Some(b) => J::Arr(vec![J::s("str"), J::s(String::from_utf8_lossy(&b).to_string())]),
                None => J::Arr(vec![J::s("opaque")]),
            },
            ty::Slice(e) => {
                let arr = Ty::new_array(self.tcx, *e, len);
                let v = self.constval(
                    ConstValue::Indirect { alloc_id: aid, offset: Size::from_bytes(base) },
                    arr,
                    depth + 1,
                );
                J::Arr(vec![J::s("slice"), v])
            }
            _ => J::Arr(vec![J::s("opaque")]),
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let tj = self.tyj(t);
        if let ty::FnDef(..) = t.kind() {
            return J::Arr(vec![J::s("k"), tj, J::Arr(vec![J::s("fn")])]);
        }
        let mut extra = J::Null;
        if let Const::Unevaluated(uv, _) = c.const_ {
            if uv.promoted.is_none() {
                extra = J::s(path(self.tcx, uv.def));
            }
        }
        let v = match c.const_.eval(self.tcx, self.env, DUMMY_SP) {
            Ok(cv) => self.constval(cv, t, 0),
            Err(_) => J::Arr(vec![J::s("opaque")]),
        };
        J::Arr(vec![J::s("k"), tj, v, extra])
    }

    fn operand(&mut self, body: &Body<'tcx>, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::Arr(vec![J::s("c"), self.place(body, p)]),
            Operand::Move(p) => J::Arr(vec![J::s("m"), self.place(body, p)]),
            Operand::Constant(c) => self.constant(c),
            Operand::RuntimeChecks(_) => {
                let b = self.tcx.types.bool;
                let t = self.tyj(b);
                J::Arr(vec![J::s("k"), t, J::Arr(vec![J::s("bool"), J::Bool(false)])])
            }
        }
    }

    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => J::Arr(vec![J::s("use"), self.operand(body, o)]),
            Rvalue::Repeat(o, n) => {
                let nn = n.try_to_target_usize(self.tcx);
                J::Arr(vec![
                    J::s("repeat"),
                    self.operand(body, o),
                    nn.map_or(J::Null, |n| J::n(n as i128)),
                ])
            }
            Rvalue::Ref(_, k, p) => J::Arr(vec![
                J::s("ref"),
                J::Bool(matches!(k, BorrowKind::Mut { .. })),
                self.place(body, p),
            ]),
            Rvalue::RawPtr(_, p) => J::Arr(vec![J::s("ref"), J::Bool(true), self.place(body, p)]),
            Rvalue::ThreadLocalRef(_) => J::Arr(vec![J::s("tls")]),
            Rvalue::Cast(k, o, t) => {
                let ks = format!("{:?}", k);
                J::Arr(vec![J::s("cast"), J::s(ks), self.operand(body, o), self.tyj(*t)])
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(body, &ab.0);
                let b = self.operand(body, &ab.1);
                let at = ab.0.ty(&body.local_decls, self.tcx);
                J::Arr(vec![J::s("bin"), J::s(format!("{:?}", op)), a, b, self.tyj(at)])
            }
            Rvalue::UnaryOp(op, a) => {
                let at = a.ty(&body.local_decls, self.tcx);
                J::Arr(vec![
                    J::s("un"),
                    J::s(format!("{:?}", op)),
                    self.operand(body, a),
                    self.tyj(at),
                ])
            }
            Rvalue::Discriminant(p) => J::Arr(vec![J::s("discr"), self.place(body, p)]),
            Rvalue::Aggregate(k, ops) => {
                let os = J::Arr(ops.iter().map(|o| self.operand(body, o)).collect());
                let kj = match **k {
                    AggregateKind::Array(_) => J::Arr(vec![J::s("array")]),
                    AggregateKind::Tuple => J::Arr(vec![J::s("tuple")]),
                    AggregateKind::Adt(_, v, _, _, f) => J::Arr(vec![
                        J::s("adt"),
                        J::n(v.as_u32() as i128),
                        f.map_or(J::Null, |f| J::n(f.as_u32() as i128)),
                    ]),
                    AggregateKind::Closure(..) => J::Arr(vec![J::s("closure")]),
                    AggregateKind::RawPtr(..) => J::Arr(vec![J::s("rawptr")]),
                    _ => J::Arr(vec![J::s("other")]),
                };
                let t = r.ty(&body.local_decls, self.tcx);
                J::Arr(vec![J::s("agg"), kj, os, self.tyj(t)])
            }
            Rvalue::CopyForDeref(p) => {
                let pj = self.place(body, p);
                J::Arr(vec![J::s("use"), J::Arr(vec![J::s("c"), pj])])
            }
            Rvalue::Reborrow(_, m, p) => J::Arr(vec![
                J::s("ref"),
                J::Bool(m.is_mut()),
                self.place(body, p),
            ]),
            Rvalue::WrapUnsafeBinder(o, _) => J::Arr(vec![J::s("use"), self.operand(body, o)]),
        }
    }

    fn body_json(&mut self, body: &Body<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.tcx;
        let mut names: HashMap<u32, String> = HashMap::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_u32(), v.name.to_string());
                }
            }
        }
        let mut locals = vec![];
        for (l, d) in body.local_decls.iter_enumerated() {
            let mut o = vec![("ty", self.tyj(d.ty))];
            if let Some(n) = names.get(&l.as_u32()) {
                o.push(("name", J::s(n.clone())));
            }
            locals.push(obj(o));
        }
        let mut blocks = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut stmts = vec![];
            for s in &data.statements {
                match &s.kind {
                    StatementKind::Assign(b) => {
                        let p = self.place(body, &b.0);
                        let r = self.rvalue(body, &b.1);
                        stmts.push(J::Arr(vec![p, r, self.span(s.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        stmts.push(J::Arr(vec![
                            p,
                            J::Arr(vec![
                                J::s("setdiscr"),
                                J::n(variant_index.as_u32() as i128),
                            ]),
                            self.span(s.source_info.span),
                        ]));
                    }
                    _ => {}
                }
            }
            let t = data.terminator();
            let sp = self.span(t.source_info.span);
            let term = match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    J::Arr(vec![J::s("goto"), J::n(target.as_u32() as i128)])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let o = self.operand(body, discr);
                    let dt = discr.ty(&body.local_decls, tcx);
                    let size = match dt.kind() {
                        ty::Int(i) => Some(i.bit_width().unwrap_or(64)),
                        _ => None,
                    };
                    let vs = targets
                        .iter()
                        .map(|(v, b)| {
                            let mut x = v as i128;
                            if let Some(bits) = size {
                                if bits < 128 {
                                    let sh = 128 - bits as u32;
                                    x = (x << sh) >> sh;
                                }
                            }
                            J::Arr(vec![J::n(x), J::n(b.as_u32() as i128)])
                        })
                        .collect();
                    J::Arr(vec![
                        J::s("switch"),
                        o,
                        J::Arr(vs),
                        J::n(targets.otherwise().as_u32() as i128),
                        self.tyj(dt),
                    ])
                }
                TerminatorKind::Return => J::Arr(vec![J::s("ret")]),
                TerminatorKind::Unreachable => J::Arr(vec![J::s("unreachable")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let p = self.place(body, place);
                    J::Arr(vec![J::s("drop"), J::n(target.as_u32() as i128), p])
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    let ft = func.ty(&body.local_decls, tcx);
                    let callee = match *ft.kind() {
                        ty::FnDef(did, binder) => self.callee(did, binder.skip_binder()),
                        _ => obj(vec![
                            ("path", J::s("<indirect>")),
                            ("func", self.operand(body, func)),
                        ]),
                    };
                    let a = args.iter().map(|a| self.operand(body, &a.node)).collect();
                    let dst = self.place(body, destination);
                    J::Arr(vec![
                        J::s("call"),
                        callee,
                        J::Arr(a),
                        dst,
                        target.map_or(J::Null, |t| J::n(t.as_u32() as i128)),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let (mk, ops): (String, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => (
                            "bounds".into(),
                            vec![self.operand(body, len), self.operand(body, index)],
                        ),
                        AssertKind::Overflow(op, a, b) => (
                            format!("overflow:{:?}", op),
                            vec![self.operand(body, a), self.operand(body, b)],
                        ),
                        AssertKind::OverflowNeg(a) => {
                            ("overflow:Neg".into(), vec![self.operand(body, a)])
                        }
                        AssertKind::DivisionByZero(a) => {
                            ("div0".into(), vec![self.operand(body, a)])
                        }
                        AssertKind::RemainderByZero(a) => {
                            ("rem0".into(), vec![self.operand(body, a)])
                        }
                        _ => ("other".into(), vec![]),
                    };
                    J::Arr(vec![
                        J::s("assert"),
                        self.operand(body, cond),
                        J::Bool(*expected),
                        J::s(mk),
                        J::Arr(ops),
                        J::n(target.as_u32() as i128),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::Arr(vec![J::s("goto"), J::n(real_target.as_u32() as i128)])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::Arr(vec![J::s("goto"), J::n(real_target.as_u32() as i128)])
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::Arr(vec![J::s("resume")])
                }
                _ => J::Arr(vec![J::s("other")]),
            };
            blocks.push(obj(vec![
                ("s", J::Arr(stmts)),
                ("t", term),
                ("sp", sp),
                ("cleanup", J::Bool(data.is_cleanup)),
            ]));
        }
        vec![
            ("argc", J::n(body.arg_count as i128)),
            ("spread", body.spread_arg.map_or(J::Null, |l| J::n(l.as_u32() as i128))),
            ("locals", J::Arr(locals)),
            ("blocks", J::Arr(blocks)),
            ("span", self.span(body.span)),
        ]
    }

    fn want_body(&self, inst: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        let did = match inst.def {
            InstanceKind::Item(d) => d,
            InstanceKind::Shim(ty::ShimKind::ClosureOnce { .. })
            | InstanceKind::Shim(ty::ShimKind::FnPtr(..))
            | InstanceKind::Shim(ty::ShimKind::Clone(..)) => return true,
            _ => return false,
        };
        if !tcx.is_mir_available(did) || tcx.is_foreign_item(did) {
            return false;
        }
        let krate = tcx.crate_name(did.krate).to_string();
        if krate.starts_with("llvm_") {
            return true;
        }
        let p = path(tcx, did);
        let q = p.trim_start_matches('<');
        // closures of a caller-provided kind are always local; std paths by module
        STD_BODIES.iter().any(|m| q.starts_with(m)) || {
            // `<T as Trait>::method` style paths for std impls: decide by the defining module
            let mut d = did;
            let mut ok = false;
            while let Some(parent) = tcx.opt_parent(d) {
                if tcx.def_kind(parent) == DefKind::Mod {
                    let mp = format!("{}::", path(tcx, parent));
                    ok = STD_BODIES.iter().any(|m| mp.starts_with(m));
                    break;
                }
                d = parent;
            }
            ok
        }
    }

    fn candidates(&self) -> Vec<Ty<'tcx>> {
        let tcx = self.tcx;
        let u8s = Ty::new_imm_ref(
            tcx,
            tcx.lifetimes.re_erased,
            Ty::new_slice(tcx, tcx.types.u8),
        );
        vec![
            u8s,
            tcx.types.u64,
            tcx.types.u32,
            tcx.types.u8,
            tcx.types.usize,
        ]
    }

    fn roots_for(&self, did: DefId) -> Vec<Instance<'tcx>> {
        let tcx = self.tcx;
        let generics = tcx.generics_of(did);
        let mut tparams = vec![];
        let mut g = Some(generics);
        while let Some(gg) = g {
            for p in gg.own_params.iter() {
                match p.kind {
                    GenericParamDefKind::Type { .. } => tparams.push(p.index),
                    GenericParamDefKind::Const { .. } => return vec![],
                    _ => {}
                }
            }
            g = gg.parent.map(|p| tcx.generics_of(p));
        }
        tparams.sort();
        let cands = self.candidates();
        let n = tparams.len();
        if n > 2 {
            return vec![];
        }
        let mut out = vec![];
        let total = cands.len().pow(n as u32);
        for mut combo in 0..total {
            let mut pick: HashMap<u32, Ty<'tcx>> = HashMap::new();
            for p in &tparams {
                pick.insert(*p, cands[combo % cands.len()]);
                combo /= cands.len();
            }
            let args = GenericArgs::for_item(tcx, did, |param, _| match param.kind {
                GenericParamDefKind::Lifetime => tcx.lifetimes.re_erased.into(),
                GenericParamDefKind::Type { .. } => pick[&param.index].into(),
                GenericParamDefKind::Const { .. } => unreachable!(),
            });
            if n > 0 && tcx.instantiate_and_check_impossible_clauses((did, args)) {
                continue;
            }
            if let Ok(Some(i)) = Instance::try_resolve(tcx, self.env, did, args) {
                out.push(i);
                if out.len() >= 3 {
                    break;
                }
            }
        }
        out
    }
}

struct UnsafeFinder<'tcx> {
    tcx: TyCtxt<'tcx>,
    found: Vec<(String, Span)>,
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for UnsafeFinder<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) =
            b.rules
        {
            // Unsafe that comes from another crate's macro carries that crate's own guarantee.
            let foreign = b.span.from_expansion()
                && b.span
                    .ctxt()
                    .outer_expn_data()
                    .macro_def_id
                    .map_or(false, |d| !d.is_local() && !self.tcx.crate_name(d.krate).as_str().starts_with("llvm_"));
            if !foreign {
                self.found.push(("unsafe block".into(), b.span));
            }
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
}

pub fn dump_crate(tcx: TyCtxt<'_>, out: &str) {
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        types: HashMap::new(),
        type_out: vec![],
        type_queue: VecDeque::new(),
        queue: VecDeque::new(),
        seen: HashSet::new(),
        externals: HashMap::new(),
    };
    let name = tcx.crate_name(LOCAL_CRATE).to_string();
    let eff = tcx.effective_visibilities(());
    let mut items = vec![];
    let mut roots = vec![];
    let defs: Vec<_> = tcx.iter_local_def_id().collect();
    for ld in defs {
        let did = ld.to_def_id();
        let dk = tcx.def_kind(did);
        let sp = tcx.def_span(did);
        match dk {
            DefKind::Fn | DefKind::AssocFn => {
                let mut o = cx.def_info(did);
                o.push(("kind", J::s("fn")));
                o.push(("span", cx.span(sp)));
                o.push(("pub", J::Bool(eff.is_reachable(ld))));
                let derived = tcx
                    .impl_of_assoc(did)
                    .map_or(false, |i| tcx.is_automatically_derived(i));
                o.push(("derived", J::Bool(derived)));
                o.push((
                    "expn",
                    J::Bool(sp.from_expansion()),
                ));
                let sig = tcx.fn_sig(did).instantiate_identity().skip_norm_wip();
                o.push(("unsafe", J::Bool(sig.safety().is_unsafe())));
                let self_s = tcx.impl_of_assoc(did).map(|imp| {
                    let t = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
                    with_no_trimmed_paths!(t.to_string())
                });
                o.push(("self", self_s.map_or(J::Null, J::s)));
                let mut ks = vec![];
                if tcx.is_mir_available(did) {
                    for r in cx.roots_for(did) {
                        let k = cx.want(r);
                        if let J::Str(s) = &k {
                            roots.push(J::s(s.clone()));
                        }
                        ks.push(k);
                    }
                }
                o.push(("keys", J::Arr(ks)));
                items.push(obj(o));
            }
            DefKind::Static { mutability, .. } => {
                let mut o = cx.def_info(did);
                o.push(("kind", J::s("static")));
                o.push(("span", cx.span(sp)));
                o.push(("mut", J::Bool(mutability.is_mut())));
                let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                o.push(("freeze", J::Bool(t.is_freeze(tcx, cx.env))));
                items.push(obj(o));
            }
            DefKind::Const { .. } | DefKind::AssocConst { .. } => {
                let mut o = cx.def_info(did);
                o.push(("kind", J::s("const")));
                o.push(("span", cx.span(sp)));
                o.push(("pub", J::Bool(eff.is_reachable(ld))));
                let generics = tcx.generics_of(did);
                if !generics.requires_monomorphization(tcx) {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    if let Ok(v) = tcx.const_eval_poly(did) {
                        let tj = cx.tyj(t);
                        o.push(("ty", tj));
                        let vj = cx.constval(v, tcx.erase_and_anonymize_regions(t), 0);
                        o.push(("value", vj));
                    }
                }
                items.push(obj(o));
            }
            DefKind::Struct | DefKind::Enum | DefKind::Union => {
                let mut o = cx.def_info(did);
                o.push(("kind", J::s("adt")));
                o.push(("span", cx.span(sp)));
                o.push(("pub", J::Bool(eff.is_reachable(ld))));
                let generics = tcx.generics_of(did);
                if !generics.requires_monomorphization(tcx) {
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    let tj = cx.tyj(t);
                    o.push(("ty", tj));
                }
                items.push(obj(o));
            }
            DefKind::Impl { of_trait } => {
                let mut o = vec![("kind", J::s("impl")), ("span", cx.span(sp))];
                if of_trait {
                    let h = tcx.impl_trait_header(did);
                    o.push(("unsafe", J::Bool(h.safety.is_unsafe())));
                    o.push(("trait", J::s(path(tcx, h.trait_ref.skip_binder().def_id))));
                    let t = tcx.type_of(did).instantiate_identity().skip_norm_wip();
                    o.push(("self", J::s(with_no_trimmed_paths!(t.to_string()))));
                    o.push(("derived", J::Bool(tcx.is_automatically_derived(did))));
                }
                items.push(obj(o));
            }
            _ => {}
        }
    }
    let mut uf = UnsafeFinder { tcx, found: vec![] };
    tcx.hir_walk_toplevel_module(&mut uf);
    let unsafes: Vec<J> = uf
        .found
        .iter()
        .map(|(k, s)| J::Arr(vec![J::s(k.clone()), cx.span(*s)]))
        .collect();

    let mut fns = vec![];
    loop {
        if let Some(inst) = cx.queue.pop_front() {
            let mut o = vec![("key", J::s(cx.key(inst)))];
            o.extend(cx.def_info(inst.def_id()));
            o.push((
                "disp",
                J::s(with_no_trimmed_paths!(inst.to_string())),
            ));
            let kind = match inst.def {
                InstanceKind::Item(_) => "item",
                InstanceKind::Intrinsic(_) => "intrinsic",
                InstanceKind::Virtual(..) => "virtual",
                InstanceKind::Shim(_) => "shim",
                _ => "other",
            };
            o.push(("kind", J::s(kind)));
            o.push(("is_closure", J::Bool(tcx.is_closure_like(inst.def_id()))));
            o.push(("args", cx.args_tys(inst.args)));
            if cx.want_body(inst) {
                let body = tcx.instance_mir(inst.def);
                let body = inst.instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    cx.env,
                    EarlyBinder::bind(tcx, body.clone()),
                );
                let b = cx.body_json(&body);
                o.extend(b);
                o.push(("has_body", J::Bool(true)));
            } else {
                o.push(("has_body", J::Bool(false)));
            }
            fns.push(obj(o));
            continue;
        }
        if let Some((i, t)) = cx.type_queue.pop_front() {
            let j = cx.type_json(t);
            cx.type_out[i] = Some(j);
            continue;
        }
        break;
    }
    let _ = (&cx.externals, FieldIdx::from_u32(0), VariantIdx::from_u32(0));
    let types = cx.type_out.into_iter().map(|x| x.unwrap_or(J::Null)).collect();
    let j = obj(vec![
        ("crate", J::s(name.clone())),
        ("roots", J::Arr(roots)),
        ("items", J::Arr(items)),
        ("unsafe", J::Arr(unsafes)),
        ("fns", J::Arr(fns)),
        ("types", J::Arr(types)),
    ]);
    let mut s = String::new();
    j.write(&mut s);
    std::fs::write(format!("{}/{}.json", out, name), s).expect("write dump");
}
