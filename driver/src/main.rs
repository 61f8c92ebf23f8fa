//! Dumps the type-checked program (MIR as built, before drop elaboration and the coroutine
//! transform) of one crate as JSON, to be analysed by /verif/sa.
//! Used as RUSTC_WORKSPACE_WRAPPER; only the crate named by MIRFACTS_CRATE is dumped.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::interpret::{GlobalAlloc, Scalar};
use rustc_middle::mir::*;
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TypingEnv};
use std::collections::HashMap;
use std::fmt::Write as _;

mod json;
use json::J;

struct Cb;

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: Vec<J>,
    adt_seen: HashMap<DefId, ()>,
    statics: HashMap<DefId, J>,
}

fn name(tcx: TyCtxt<'_>, d: DefId) -> String {
    // canonical path: crate::module::Type::method, impls replaced by their self type or trait
    let krate = tcx.crate_name(d.krate).to_string();
    let path = tcx.def_path(d);
    let _ = path;
    let mut parts: Vec<String> = Vec::new();
    let mut cur = d;
    loop {
        let key = tcx.def_key(cur);
        use rustc_hir::definitions::DefPathData as P;
        match key.disambiguated_data.data {
            P::CrateRoot => break,
            P::Impl => {
                let self_ty = tcx.type_of(cur).instantiate_identity().skip_norm_wip();
                let s = ty_name(tcx, self_ty);
                parts.push(s);
                parts.reverse();
                return parts.join("::");
            }
            P::ForeignMod => {}
            P::Closure => parts.push(format!("{{closure#{}}}", key.disambiguated_data.disambiguator)),
            _ => {
                let s = match key.disambiguated_data.data.get_opt_name() {
                    Some(s) => s.to_string(),
                    None => format!("{{{:?}#{}}}", key.disambiguated_data.data, key.disambiguated_data.disambiguator),
                };
                parts.push(s);
            }
        }
        match key.parent {
            Some(p) => cur = DefId { krate: cur.krate, index: p },
            None => break,
        }
    }
    parts.push(krate);
    parts.reverse();
    parts.join("::")
}

fn ty_name<'tcx>(tcx: TyCtxt<'tcx>, t: Ty<'tcx>) -> String {
    match t.kind() {
        ty::Adt(d, _) => name(tcx, d.did()),
        ty::Ref(_, t, _) => format!("&{}", ty_name(tcx, *t)),
        ty::Param(p) => p.name.to_string(),
        ty::Dynamic(..) => match t.kind() {
            ty::Dynamic(p, _) => match p.principal_def_id() {
                Some(d) => format!("dyn {}", name(tcx, d)),
                None => "dyn".to_string(),
            },
            _ => unreachable!(),
        },
        ty::Tuple(ts) if ts.is_empty() => "()".to_string(),
        ty::Slice(_) => "[T]".to_string(),
        ty::Array(..) => "[T; N]".to_string(),
        _ => format!("{:?}", t),
    }
}

impl<'tcx> Dump<'tcx> {
    fn args(&mut self, args: &[ty::GenericArg<'tcx>]) -> J {
        let mut v = Vec::new();
        for a in args.iter() {
            match a.kind() {
                GenericArgKind::Lifetime(_) => {}
                GenericArgKind::Type(t) => v.push(self.ty(t)),
                GenericArgKind::Const(c) => v.push(J::obj(vec![("c", J::s(format!("{:?}", c)))])),
            }
        }
        J::Arr(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        if let Some(i) = self.type_ids.get(&t) {
            return J::n(*i as i128);
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert(t, id);
        let j = match *t.kind() {
            ty::Bool => J::obj(vec![("k", J::s("int")), ("bits", J::n(1)), ("n", J::s("bool"))]),
            ty::Char => J::obj(vec![("k", J::s("int")), ("bits", J::n(32)), ("n", J::s("char"))]),
            ty::Int(i) => J::obj(vec![
                ("k", J::s("int")),
                ("signed", J::Bool(true)),
                ("bits", J::n(i.bit_width().unwrap_or(64) as i128)),
                ("n", J::s(i.name_str())),
            ]),
            ty::Uint(i) => J::obj(vec![
                ("k", J::s("int")),
                ("bits", J::n(i.bit_width().unwrap_or(64) as i128)),
                ("n", J::s(i.name_str())),
            ]),
            ty::Float(f) => J::obj(vec![("k", J::s("float")), ("n", J::s(f.name_str()))]),
            ty::Str => J::obj(vec![("k", J::s("str"))]),
            ty::Never => J::obj(vec![("k", J::s("never"))]),
            ty::Adt(d, args) => {
                self.adt(d);
                let a = self.args(args);
                J::obj(vec![("k", J::s("adt")), ("n", J::s(name(tcx, d.did()))), ("a", a)])
            }
            ty::Ref(_, inner, m) => {
                let i = self.ty(inner);
                J::obj(vec![("k", J::s("ref")), ("mut", J::Bool(m.is_mut())), ("t", i)])
            }
            ty::RawPtr(inner, m) => {
                let i = self.ty(inner);
                J::obj(vec![("k", J::s("ptr")), ("mut", J::Bool(m.is_mut())), ("t", i)])
            }
            ty::Tuple(ts) => {
                let v = ts.iter().map(|t| self.ty(t)).collect();
                J::obj(vec![("k", J::s("tuple")), ("a", J::Arr(v))])
            }
            ty::Slice(i) => {
                let i = self.ty(i);
                J::obj(vec![("k", J::s("slice")), ("t", i)])
            }
            ty::Array(i, n) => {
                let i = self.ty(i);
                let n = n.try_to_target_usize(tcx);
                J::obj(vec![
                    ("k", J::s("array")),
                    ("t", i),
                    ("len", n.map(|n| J::n(n as i128)).unwrap_or(J::Null)),
                ])
            }
            ty::FnDef(d, args) => {
                let a = self.args(args.skip_binder());
                J::obj(vec![("k", J::s("fndef")), ("n", J::s(name(tcx, d.into()))), ("d", J::s(did(tcx, d.into()))), ("a", a)])
            }
            ty::FnPtr(..) => J::obj(vec![("k", J::s("fnptr"))]),
            ty::Closure(d, args) => {
                let d: DefId = d.into();
                let a = self.args(args.as_closure().parent_args());
                let up = args.as_closure().upvar_tys().iter().map(|t| self.ty(t)).collect();
                J::obj(vec![("k", J::s("closure")), ("d", J::s(did(tcx, d))), ("a", a), ("up", J::Arr(up))])
            }
            ty::Coroutine(d, args) => {
                let d: DefId = d.into();
                let a = self.args(args.as_coroutine().parent_args());
                let up = args.as_coroutine().upvar_tys().iter().map(|t| self.ty(t)).collect();
                let r = self.ty(args.as_coroutine().return_ty());
                J::obj(vec![("k", J::s("coroutine")), ("d", J::s(did(tcx, d))), ("a", a), ("up", J::Arr(up)), ("ret", r)])
            }
            ty::Param(p) => J::obj(vec![("k", J::s("param")), ("i", J::n(p.index as i128)), ("n", J::s(p.name.to_string()))]),
            ty::Dynamic(p, _) => {
                let n = p.principal_def_id().map(|d| name(tcx, d)).unwrap_or_default();
                let mut out = J::Null;
                for pred in p.projection_bounds() {
                    if let Some(t) = pred.skip_binder().term.as_type() {
                        out = self.ty(t);
                    }
                }
                let autos = p.auto_traits().map(|d| J::s(name(tcx, d))).collect();
                J::obj(vec![("k", J::s("dyn")), ("n", J::s(n)), ("out", out), ("auto", J::Arr(autos))])
            }
            ty::Alias(_, al) => {
                let kind = al.kind(tcx);
                let (k, d): (&str, DefId) = match kind {
                    ty::AliasTyKind::Projection { def_id } => ("proj", def_id.into()),
                    ty::AliasTyKind::Inherent { def_id } => ("inh", def_id.into()),
                    ty::AliasTyKind::Opaque { def_id } => ("opaque", def_id.into()),
                    ty::AliasTyKind::Free { def_id } => ("free", def_id.into()),
                };
                let a = self.args(al.args);
                J::obj(vec![("k", J::s(k)), ("n", J::s(name(tcx, d))), ("a", a)])
            }
            _ => J::obj(vec![("k", J::s("other")), ("n", J::s(format!("{:?}", t)))]),
        };
        self.types[id] = j;
        J::n(id as i128)
    }

    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        if self.adt_seen.insert(d.did(), ()).is_some() {
            return;
        }
        let tcx = self.tcx;
        let mut vs = Vec::new();
        let local = d.did().is_local();
        for (i, v) in d.variants().iter_enumerated() {
            let discr = if d.is_enum() { d.discriminant_for_variant(tcx, i).val as i128 } else { 0 };
            let mut fs = Vec::new();
            for f in v.fields.iter() {
                let t = if local || d.is_enum() {
                    let t = tcx.type_of(f.did).instantiate_identity().skip_norm_wip();
                    self.ty(t)
                } else {
                    J::Null
                };
                fs.push(J::obj(vec![
                    ("n", J::s(f.name.to_string())),
                    ("t", t),
                    ("pub", J::Bool(f.vis.is_public())),
                ]));
            }
            vs.push(J::obj(vec![("n", J::s(v.name.to_string())), ("discr", J::n(discr)), ("f", J::Arr(fs))]));
        }
        self.adts.push(J::obj(vec![
            ("n", J::s(name(tcx, d.did()))),
            ("local", J::Bool(local)),
            ("kind", J::s(if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" })),
            ("v", J::Arr(vs)),
            ("span", span(tcx, tcx.def_span(d.did()))),
        ]));
    }
}

fn did(tcx: TyCtxt<'_>, d: DefId) -> String {
    format!("{}{}", tcx.crate_name(d.krate), tcx.def_path(d).to_string_no_crate_verbose())
}

fn span(tcx: TyCtxt<'_>, s: rustc_span::Span) -> J {
    let s = s.source_callsite();
    let lo = tcx.sess.source_map().lookup_char_pos(s.lo());
    let f = match &lo.file.name {
        rustc_span::FileName::Real(r) => r.local_path().map(|p| p.display().to_string()).unwrap_or_default(),
        o => format!("{:?}", o),
    };
    J::s(format!("{}:{}", f, lo.line))
}

fn macros(s: rustc_span::Span) -> Vec<String> {
    s.macro_backtrace()
        .filter_map(|e| match e.kind {
            rustc_span::ExpnKind::Macro(_, n) => Some(n.to_string()),
            rustc_span::ExpnKind::Desugaring(d) => Some(format!("<{:?}>", d)),
            _ => None,
        })
        .collect()
}

struct BodyDump<'a, 'tcx> {
    d: &'a mut Dump<'tcx>,
    env: TypingEnv<'tcx>,
    body: &'a Body<'tcx>,
}

impl<'a, 'tcx> BodyDump<'a, 'tcx> {
    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let tcx = self.d.tcx;
        let t = tcx.erase_and_anonymize_regions(t);
        tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(t)).unwrap_or(t)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> J {
        let t = self.norm(t);
        self.d.ty(t)
    }
    fn place(&mut self, p: &Place<'tcx>) -> J {
        let tcx = self.d.tcx;
        let mut v = vec![J::n(p.local.as_usize() as i128)];
        for (base, e) in p.iter_projections() {
            v.push(match e {
                ProjectionElem::Deref => J::s("*"),
                ProjectionElem::Field(f, t) => {
                    let bt = base.ty(&self.body.local_decls, tcx);
                    let mut n = String::new();
                    if let ty::Adt(ad, _) = bt.ty.kind() {
                        if !ad.is_union() {
                            let vi = bt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            if vi.as_usize() < ad.variants().len() && f.as_usize() < ad.variant(vi).fields.len() {
                                n = ad.variant(vi).fields[f].name.to_string();
                            }
                        }
                    }
                    let tt = self.ty(t);
                    J::Arr(vec![J::s("f"), J::n(f.as_usize() as i128), J::s(n), tt])
                }
                ProjectionElem::Index(l) => J::Arr(vec![J::s("i"), J::n(l.as_usize() as i128)]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::Arr(vec![
                    J::s("ci"),
                    J::n(offset as i128),
                    J::n(min_length as i128),
                    J::Bool(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![J::s("ss"), J::n(from as i128), J::n(to as i128), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(s, v) => J::Arr(vec![
                    J::s("v"),
                    J::n(v.as_usize() as i128),
                    J::s(s.map(|s| s.to_string()).unwrap_or_default()),
                ]),
                _ => J::s("cast"),
            });
        }
        J::Arr(v)
    }

    fn alloc_bytes(&self, id: interpret::AllocId, off: usize, len: usize) -> Option<Vec<u8>> {
        match self.d.tcx.global_alloc(id) {
            GlobalAlloc::Memory(m) => {
                let a = m.inner();
                if off + len <= a.len() {
                    Some(a.inspect_with_uninit_and_ptr_outside_interpreter(off..off + len).to_vec())
                } else {
                    None
                }
            }
            _ => None,
        }
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>, depth: usize) -> Option<J> {
        let tcx = self.d.tcx;
        if depth > 6 {
            return None;
        }
        match t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let s = match v {
                    ConstValue::Scalar(Scalar::Int(i)) => Some(i),
                    ConstValue::Indirect { alloc_id, offset } => {
                        let size = tcx.layout_of(self.env.as_query_input(t)).ok()?.size.bytes() as usize;
                        let b = self.alloc_bytes(alloc_id, offset.bytes() as usize, size)?;
                        let mut x: i128 = 0;
                        for (i, y) in b.iter().enumerate() {
                            x |= (*y as i128) << (8 * i);
                        }
                        if let ty::Int(_) = t.kind() {
                            if size < 16 && x >> (8 * size - 1) & 1 == 1 {
                                x -= 1 << (8 * size);
                            }
                        }
                        return Some(J::obj(vec![("int", J::n(x))]));
                    }
                    _ => None,
                }?;
                let size = s.size();
                let x = if let ty::Int(_) = t.kind() { s.to_int(size) } else { s.to_uint(size) as i128 };
                Some(J::obj(vec![("int", J::n(x))]))
            }
            ty::FnDef(..) => Some(J::obj(vec![("zst", J::Bool(true))])),
            ty::Ref(_, inner, _) => {
                // find the pointed to allocation
                let (alloc, off, meta) = match v {
                    ConstValue::Slice { alloc_id, meta } => (alloc_id, 0usize, Some(meta)),
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.into_raw_parts();
                        (prov.alloc_id(), off.bytes() as usize, None)
                    }
                    ConstValue::Indirect { alloc_id, offset } => {
                        // read the pointer itself
                        match tcx.global_alloc(alloc_id) {
                            GlobalAlloc::Memory(m) => {
                                let a = m.inner();
                                let p = a.provenance().ptrs().iter().find(|(o, _)| *o == offset)?;
                                let b = self.alloc_bytes(alloc_id, offset.bytes() as usize, 16.min(a.len() - offset.bytes() as usize))?;
                                let po = u64::from_le_bytes(b[..8].try_into().ok()?) as usize;
                                let meta = if b.len() >= 16 { Some(u64::from_le_bytes(b[8..16].try_into().ok()?)) } else { None };
                                (p.1.alloc_id(), po, meta)
                            }
                            _ => return None,
                        }
                    }
                    _ => return None,
                };
                match tcx.global_alloc(alloc) {
                    GlobalAlloc::Static(d) => {
                        let n = self.stat(d);
                        return Some(J::obj(vec![("static", J::s(n))]));
                    }
                    GlobalAlloc::Memory(_) => {}
                    _ => return None,
                }
                match inner.kind() {
                    ty::Str => {
                        let b = self.alloc_bytes(alloc, off, meta? as usize)?;
                        Some(J::obj(vec![("str", J::s(String::from_utf8_lossy(&b).to_string()))]))
                    }
                    ty::Slice(e) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                        let b = self.alloc_bytes(alloc, off, meta? as usize)?;
                        let v = b.iter().map(|x| J::n(*x as i128)).collect();
                        Some(J::obj(vec![("ref", J::obj(vec![("bytes", J::Arr(v))]))]))
                    }
                    ty::Slice(_) => None,
                    _ if inner.is_sized(tcx, self.env) => {
                        let x = self.const_val(
                            ConstValue::Indirect { alloc_id: alloc, offset: rustc_abi::Size::from_bytes(off as u64) },
                            *inner,
                            depth + 1,
                        )?;
                        Some(J::obj(vec![("ref", x)]))
                    }
                    _ => None,
                }
            }
            ty::Array(e, n) if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) => {
                let n = n.try_to_target_usize(tcx)? as usize;
                match v {
                    ConstValue::Indirect { alloc_id, offset } => {
                        let b = self.alloc_bytes(alloc_id, offset.bytes() as usize, n)?;
                        let v = b.iter().map(|x| J::n(*x as i128)).collect();
                        Some(J::obj(vec![("bytes", J::Arr(v))]))
                    }
                    ConstValue::Scalar(Scalar::Int(i)) => {
                        let x = i.to_uint(i.size());
                        let v = (0..n).map(|k| J::n((x >> (8 * k) & 0xff) as i128)).collect();
                        Some(J::obj(vec![("bytes", J::Arr(v))]))
                    }
                    ConstValue::ZeroSized => Some(J::obj(vec![("bytes", J::Arr(vec![]))])),
                    _ => None,
                }
            }
            ty::Adt(..) | ty::Tuple(..) | ty::Array(..) => {
                if let ty::Tuple(ts) = t.kind() {
                    if ts.is_empty() {
                        return Some(J::obj(vec![("variant", J::n(0)), ("fields", J::Arr(vec![]))]));
                    }
                }
                if let ty::Adt(d, _) = t.kind() {
                    if d.is_union() {
                        return None;
                    }
                }
                let dc = tcx.try_destructure_mir_constant_for_user_output(v, t)?;
                let mut fs = Vec::new();
                for (fv, ft) in dc.fields.iter() {
                    fs.push(self.const_val(*fv, *ft, depth + 1)?);
                }
                let vi = dc.variant.map(|v| v.as_usize()).unwrap_or(0);
                Some(J::obj(vec![("variant", J::n(vi as i128)), ("fields", J::Arr(fs))]))
            }
            _ => None,
        }
    }

    fn stat(&mut self, d: DefId) -> String {
        let tcx = self.d.tcx;
        let n = name(tcx, d);
        if !self.d.statics.contains_key(&d) {
            self.d.statics.insert(d, J::Null);
            let mut val = J::Null;
            if d.is_local() && !tcx.is_thread_local_static(d) {
                let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                if let Ok(_a) = tcx.eval_static_initializer(d) {
                    let id = tcx.reserve_and_set_memory_alloc(_a);
                    if let Some(v) = self.const_val(
                        ConstValue::Indirect { alloc_id: id, offset: rustc_abi::Size::ZERO },
                        t,
                        0,
                    ) {
                        val = v;
                    }
                }
            }
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let tj = self.d.ty(t);
            self.d.statics.insert(d, J::obj(vec![("n", J::s(n.clone())), ("v", val), ("t", tj)]));
        }
        n
    }

    fn fndef(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> Vec<(&'static str, J)> {
        let tcx = self.d.tcx;
        let mut v = vec![("fn", J::s(name(tcx, d))), ("d", J::s(did(tcx, d)))];
        let args = self.norm_args(args);
        let a = self.d.args(args);
        v.push(("a", a));
        if let Some(tr) = tcx.trait_of_assoc(d) {
            v.push(("trait", J::s(name(tcx, tr))));
            v.push(("item", J::s(tcx.item_name(d).to_string())));
        } else if let Some(im) = tcx.impl_of_assoc(d) {
            let st = tcx.type_of(im).instantiate(tcx, args).skip_norm_wip();
            let s = self.ty(st);
            v.push(("self", s));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let parent = tcx.parent(d);
            let vname = tcx.item_name(parent).to_string();
            v.push(("ctor", J::s(vname)));
        }
        if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
            let args_e = tcx.erase_and_anonymize_regions(args);
            if let Ok(Some(i)) = ty::Instance::try_resolve(tcx, self.env, d, args_e) {
                if let ty::InstanceKind::Item(rd) = i.def {
                    if rd != d || i.args != args_e {
                        v.push(("rfn", J::s(name(tcx, rd))));
                        v.push(("rd", J::s(did(tcx, rd))));
                        let a = self.d.args(i.args);
                        v.push(("ra", a));
                        if let Some(im) = tcx.impl_of_assoc(rd) {
                            v.push(("rimpl", J::s(did(tcx, im))));
                        }
                    }
                }
            }
        }
        v
    }

    fn norm_args(&self, args: ty::GenericArgsRef<'tcx>) -> ty::GenericArgsRef<'tcx> {
        let tcx = self.d.tcx;
        let a = tcx.erase_and_anonymize_regions(args);
        tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(a)).unwrap_or(a)
    }

    fn konst(&mut self, c: &ConstOperand<'tcx>) -> J {
        let tcx = self.d.tcx;
        let t = self.norm(c.const_.ty());
        let tj = self.d.ty(t);
        let mut v = vec![("t", tj)];
        if let ty::FnDef(d, args) = *t.kind() {
            v.extend(self.fndef(d.into(), args.skip_binder()));
            return J::obj(vec![("const", J::obj(v))]);
        }
        if let Const::Unevaluated(u, _) = c.const_ {
            if let Some(p) = u.promoted {
                v.push(("promoted", J::n(p.as_usize() as i128)));
                v.push(("pd", J::s(did(tcx, u.def))));
            } else {
                v.push(("name", J::s(name(tcx, u.def))));
            }
        }
        // promoteds are interpreted from their bodies; evaluating one is done only if it has no body here
        let is_promoted = matches!(c.const_, Const::Unevaluated(u, _) if u.promoted.is_some());
        if !is_promoted {
            let c2 = tcx.erase_and_anonymize_regions(c.const_);
            let c2 = tcx.try_normalize_erasing_regions(self.env, ty::Unnormalized::new_wip(c2)).unwrap_or(c2);
            use rustc_middle::ty::TypeVisitableExt;
            if !c2.has_param() {
                if let Ok(cv) = c2.eval(tcx, self.env, c.span) {
                    if let ConstValue::Scalar(Scalar::Ptr(p, _)) = cv {
                        let (prov, _) = p.into_raw_parts();
                        if let GlobalAlloc::Static(d) = tcx.global_alloc(prov.alloc_id()) {
                            let n = self.stat(d);
                            v.push(("static", J::s(n)));
                        }
                    }
                    if let Some(x) = self.const_val(cv, t, 0) {
                        v.push(("v", x));
                    } else if matches!(cv, ConstValue::ZeroSized) {
                        v.push(("v", J::obj(vec![("zst", J::Bool(true))])));
                    }
                }
            }
        }
        let mut s = String::new();
        let _ = write!(s, "{}", c.const_);
        v.push(("s", J::s(s)));
        J::obj(vec![("const", J::obj(v))])
    }

    fn op(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => J::obj(vec![("copy", self.place(p))]),
            Operand::Move(p) => J::obj(vec![("move", self.place(p))]),
            Operand::Constant(c) => self.konst(c),
            o => J::obj(vec![("other", J::s(format!("{:?}", o)))]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>) -> J {
        let tcx = self.d.tcx;
        match r {
            Rvalue::Use(o, _) => J::Arr(vec![J::s("use"), self.op(o)]),
            Rvalue::Repeat(o, n) => {
                let n = n.try_to_target_usize(tcx);
                J::Arr(vec![J::s("repeat"), self.op(o), n.map(|n| J::n(n as i128)).unwrap_or(J::Null)])
            }
            Rvalue::Ref(_, k, p) => {
                let k = match k {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                J::Arr(vec![J::s("ref"), J::s(k), self.place(p)])
            }
            Rvalue::Reborrow(_, _, p) => J::Arr(vec![J::s("reborrow"), self.place(p)]),
            Rvalue::RawPtr(_, p) => J::Arr(vec![J::s("ref"), J::s("raw"), self.place(p)]),
            Rvalue::ThreadLocalRef(d) => J::Arr(vec![J::s("tls"), J::s(name(tcx, *d))]),
            Rvalue::Cast(k, o, t) => {
                let k = match k {
                    CastKind::PointerCoercion(c, _) => format!("coerce:{:?}", c),
                    k => format!("{:?}", k),
                };
                let ft = o.ty(&self.body.local_decls, tcx);
                let fj = self.ty(ft);
                let tj = self.ty(*t);
                J::Arr(vec![J::s("cast"), J::s(k), self.op(o), tj, fj])
            }
            Rvalue::BinaryOp(b, x) => {
                let (l, r) = &**x;
                let t = l.ty(&self.body.local_decls, tcx);
                let tj = self.ty(t);
                J::Arr(vec![J::s("bin"), J::s(format!("{:?}", b)), self.op(l), self.op(r), tj])
            }
            Rvalue::UnaryOp(u, o) => {
                let t = o.ty(&self.body.local_decls, tcx);
                let tj = self.ty(t);
                J::Arr(vec![J::s("un"), J::s(format!("{:?}", u)), self.op(o), tj])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&self.body.local_decls, tcx).ty;
                let tj = self.ty(t);
                J::Arr(vec![J::s("discr"), self.place(p), tj])
            }
            Rvalue::Aggregate(k, fs) => {
                let ops = J::Arr(fs.iter().map(|o| self.op(o)).collect());
                let k = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::obj(vec![("k", J::s("array")), ("t", t)])
                    }
                    AggregateKind::Tuple => J::obj(vec![("k", J::s("tuple"))]),
                    AggregateKind::Adt(d, v, args, _, _) => {
                        let ad = tcx.adt_def(*d);
                        self.d.adt(ad);
                        let a = self.norm_args(args);
                        let a = self.d.args(a);
                        J::obj(vec![
                            ("k", J::s("adt")),
                            ("n", J::s(name(tcx, *d))),
                            ("v", J::n(v.as_usize() as i128)),
                            ("vn", J::s(ad.variant(*v).name.to_string())),
                            ("a", a),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let a = self.norm_args(args);
                        let a = self.d.args(a.as_closure().parent_args());
                        J::obj(vec![("k", J::s("closure")), ("d", J::s(did(tcx, *d))), ("a", a)])
                    }
                    AggregateKind::Coroutine(d, args) => {
                        let a = self.norm_args(args);
                        let a = self.d.args(a.as_coroutine().parent_args());
                        J::obj(vec![("k", J::s("coroutine")), ("d", J::s(did(tcx, *d))), ("a", a)])
                    }
                    k => J::obj(vec![("k", J::s("other")), ("n", J::s(format!("{:?}", k)))]),
                };
                J::Arr(vec![J::s("agg"), k, ops])
            }
            Rvalue::CopyForDeref(p) => J::Arr(vec![J::s("use"), J::obj(vec![("copy", self.place(p))])]),
            r => J::Arr(vec![J::s("other"), J::s(format!("{:?}", r))]),
        }
    }

    fn dump(&mut self) -> Vec<(&'static str, J)> {
        let tcx = self.d.tcx;
        let body = self.body;
        let mut names: HashMap<usize, String> = HashMap::new();
        let mut upvars = Vec::new();
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = &v.value {
                if p.projection.is_empty() {
                    names.entry(p.local.as_usize()).or_insert(v.name.to_string());
                } else if p.local.as_usize() == 1 {
                    let pj = self.place(p);
                    upvars.push(J::Arr(vec![J::s(v.name.to_string()), pj]));
                }
            }
        }
        let locals = body
            .local_decls
            .iter_enumerated()
            .map(|(i, l)| {
                let t = self.ty(l.ty);
                let mut v = vec![("t", t)];
                if let Some(n) = names.get(&i.as_usize()) {
                    v.push(("n", J::s(n.clone())));
                }
                J::obj(v)
            })
            .collect();
        let mut blocks = Vec::new();
        for (_, b) in body.basic_blocks.iter_enumerated() {
            let mut ss = Vec::new();
            for s in &b.statements {
                let sp = s.source_info.span;
                match &s.kind {
                    StatementKind::Assign(x) => {
                        let p = self.place(&x.0);
                        let r = self.rvalue(&x.1);
                        let mut v = vec![J::s("="), p, r, span(tcx, sp)];
                        let m = macros(sp);
                        if !m.is_empty() {
                            v.push(J::Arr(m.into_iter().map(J::s).collect()));
                        }
                        ss.push(J::Arr(v));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        ss.push(J::Arr(vec![J::s("setd"), p, J::n(variant_index.as_usize() as i128)]));
                    }
                    StatementKind::StorageLive(l) => ss.push(J::Arr(vec![J::s("live"), J::n(l.as_usize() as i128)])),
                    StatementKind::StorageDead(l) => ss.push(J::Arr(vec![J::s("dead"), J::n(l.as_usize() as i128)])),
                    _ => {}
                }
            }
            let t = b.terminator();
            let sp = t.source_info.span;
            let mut v: Vec<(&'static str, J)> = Vec::new();
            let bb = |b: BasicBlock| J::n(b.as_usize() as i128);
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    v.push(("k", J::s("goto")));
                    v.push(("to", bb(*target)));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    v.push(("k", J::s("goto")));
                    v.push(("to", bb(*real_target)));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    v.push(("k", J::s("goto")));
                    v.push(("to", bb(*real_target)));
                    v.push(("loop", J::Bool(true)));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    v.push(("k", J::s("switch")));
                    let o = self.op(discr);
                    v.push(("on", o));
                    let t = discr.ty(&body.local_decls, tcx);
                    let tj = self.ty(t);
                    v.push(("t", tj));
                    v.push((
                        "cases",
                        J::Arr(targets.iter().map(|(x, b)| J::Arr(vec![J::n(x as i128), J::n(b.as_usize() as i128)])).collect()),
                    ));
                    v.push(("else", bb(targets.otherwise())));
                }
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => v.push(("k", J::s("resume"))),
                TerminatorKind::Return => v.push(("k", J::s("return"))),
                TerminatorKind::Unreachable => v.push(("k", J::s("unreachable"))),
                TerminatorKind::Drop { place, target, unwind, .. } => {
                    v.push(("k", J::s("drop")));
                    let p = self.place(place);
                    v.push(("p", p));
                    let t = place.ty(&body.local_decls, tcx).ty;
                    let tj = self.ty(t);
                    v.push(("t", tj));
                    v.push(("to", bb(*target)));
                    if let UnwindAction::Cleanup(b) = unwind {
                        v.push(("uw", bb(*b)));
                    }
                }
                TerminatorKind::Call { func, args, destination, target, unwind, .. } => {
                    v.push(("k", J::s("call")));
                    let f = self.op(func);
                    v.push(("f", f));
                    let mut av = Vec::new();
                    let mut at = Vec::new();
                    for a in args.iter() {
                        av.push(self.op(&a.node));
                        let t = a.node.ty(&body.local_decls, tcx);
                        at.push(self.ty(t));
                    }
                    v.push(("args", J::Arr(av)));
                    v.push(("at", J::Arr(at)));
                    let d = self.place(destination);
                    v.push(("dest", d));
                    let t = destination.ty(&body.local_decls, tcx).ty;
                    let tj = self.ty(t);
                    v.push(("dt", tj));
                    if let Some(t) = target {
                        v.push(("to", bb(*t)));
                    }
                    if let UnwindAction::Cleanup(b) = unwind {
                        v.push(("uw", bb(*b)));
                    }
                }
                TerminatorKind::TailCall { .. } => v.push(("k", J::s("tailcall"))),
                TerminatorKind::Assert { cond, expected, msg, target, unwind } => {
                    v.push(("k", J::s("assert")));
                    let c = self.op(cond);
                    v.push(("cond", c));
                    v.push(("exp", J::Bool(*expected)));
                    let (m, ops): (&str, Vec<J>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds", vec![self.op(len), self.op(index)]),
                        AssertKind::Overflow(b, l, r) => {
                            let a = vec![J::s(format!("{:?}", b)), self.op(l), self.op(r)];
                            ("overflow", a)
                        }
                        AssertKind::OverflowNeg(o) => ("overflow_neg", vec![self.op(o)]),
                        AssertKind::DivisionByZero(o) => ("div0", vec![self.op(o)]),
                        AssertKind::RemainderByZero(o) => ("rem0", vec![self.op(o)]),
                        _ => ("other", vec![]),
                    };
                    v.push(("msg", J::s(m)));
                    v.push(("ops", J::Arr(ops)));
                    v.push(("to", bb(*target)));
                    if let UnwindAction::Cleanup(b) = unwind {
                        v.push(("uw", bb(*b)));
                    }
                }
                TerminatorKind::Yield { value, resume, resume_arg, drop } => {
                    v.push(("k", J::s("yield")));
                    let o = self.op(value);
                    v.push(("v", o));
                    v.push(("to", bb(*resume)));
                    let p = self.place(resume_arg);
                    v.push(("arg", p));
                    if let Some(d) = drop {
                        v.push(("drop", bb(*d)));
                    }
                }
                TerminatorKind::CoroutineDrop => v.push(("k", J::s("codrop"))),
                TerminatorKind::InlineAsm { .. } => v.push(("k", J::s("asm"))),
            }
            v.push(("span", span(tcx, sp)));
            let m = macros(sp);
            if !m.is_empty() {
                v.push(("m", J::Arr(m.into_iter().map(J::s).collect())));
            }
            let mut bv = vec![("s", J::Arr(ss)), ("t", J::obj(v))];
            if b.is_cleanup {
                bv.push(("cleanup", J::Bool(true)));
            }
            blocks.push(J::obj(bv));
        }
        vec![
            ("argc", J::n(body.arg_count as i128)),
            ("locals", J::Arr(locals)),
            ("upvars", J::Arr(upvars)),
            ("blocks", J::Arr(blocks)),
        ]
    }
}

fn dump(tcx: TyCtxt<'_>, out: &str) {
    let keys: Vec<LocalDefId> = tcx
        .mir_keys(())
        .iter()
        .copied()
        .filter(|k| !matches!(tcx.def_kind(k.to_def_id()), DefKind::Ctor(..)))
        .collect();
    // clone everything first: later queries steal the promoted MIR
    let mut bodies = Vec::new();
    for k in &keys {
        let (b, p) = tcx.mir_promoted(*k);
        if b.is_stolen() || p.is_stolen() {
            continue;
        }
        let b = b.borrow().clone();
        let p = p.borrow().clone();
        bodies.push((*k, b, p));
    }
    let mut d = Dump {
        tcx,
        types: Vec::new(),
        type_ids: HashMap::new(),
        adts: Vec::new(),
        adt_seen: HashMap::new(),
        statics: HashMap::new(),
    };
    let ev = tcx.effective_visibilities(());
    let mut bj = Vec::new();
    for (k, b, proms) in &bodies {
        let def = k.to_def_id();
        let kind = tcx.def_kind(def);
        let env = if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure | DefKind::Ctor(..)) {
            TypingEnv::post_analysis(tcx, def)
        } else {
            TypingEnv::post_analysis(tcx, def)
        };
        let mut v = vec![
            ("id", J::s(did(tcx, def))),
            ("name", J::s(name(tcx, def))),
            ("kind", J::s(format!("{:?}", kind))),
            ("span", span(tcx, tcx.def_span(def))),
        ];
        if tcx.is_coroutine(def) {
            v.push(("coroutine", J::Bool(true)));
        }
        let parent = tcx.opt_parent(def);
        if let Some(p) = parent {
            v.push(("parent", J::s(did(tcx, p))));
            if let DefKind::Impl { of_trait } = tcx.def_kind(p) {
                v.push(("impl", J::s(did(tcx, p))));
                if of_trait {
                    v.push(("impl_trait", J::s(name(tcx, tcx.impl_trait_id(p)))));
                }
            }
        }
        if !matches!(kind, DefKind::Closure) {
            v.push(("pub", J::Bool(ev.is_reachable(*k))));
            v.push(("item", J::s(tcx.opt_item_name(def).map(|s| s.to_string()).unwrap_or_default())));
        }
        let g = tcx.generics_of(def);
        let mut gs = Vec::new();
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                gs.push(J::Arr(vec![J::n(i as i128), J::s(p.name.to_string())]));
            }
        }
        v.push(("generics", J::Arr(gs)));
        {
            let mut bd = BodyDump { d: &mut d, env, body: b };
            v.extend(bd.dump());
        }
        let mut pj = Vec::new();
        for p in proms.iter() {
            let mut bd = BodyDump { d: &mut d, env, body: p };
            pj.push(J::obj(bd.dump()));
        }
        v.push(("promoted", J::Arr(pj)));
        bj.push(J::obj(v));
    }
    // impls
    let mut ij = Vec::new();
    for (_, impls) in tcx.all_local_trait_impls(()).iter() {
        for i in impls {
            let def = i.to_def_id();
            let tr = tcx.impl_trait_ref(def).instantiate_identity().skip_norm_wip();
            let env = TypingEnv::post_analysis(tcx, def);
            let st = tcx.erase_and_anonymize_regions(tr.self_ty());
            let st = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(st)).unwrap_or(st);
            let s = d.ty(st);
            let ta = tcx.erase_and_anonymize_regions(tr.args);
            let a = d.args(ta);
            let mut items = Vec::new();
            let mut tys = Vec::new();
            for it in tcx.associated_items(def).in_definition_order() {
                if it.is_fn() {
                    items.push(J::Arr(vec![J::s(it.name().to_string()), J::s(did(tcx, it.def_id))]));
                } else if it.is_type() {
                    let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                    let t = tcx.try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(tcx.erase_and_anonymize_regions(t))).unwrap_or(t);
                    let tj = d.ty(t);
                    tys.push(J::Arr(vec![J::s(it.name().to_string()), tj]));
                }
            }
            ij.push(J::obj(vec![
                ("id", J::s(did(tcx, def))),
                ("trait", J::s(name(tcx, tr.def_id))),
                ("self", s),
                ("args", a),
                ("items", J::Arr(items)),
                ("types", J::Arr(tys)),
                ("span", span(tcx, tcx.def_span(def))),
            ]));
        }
    }
    let statics: Vec<J> = d.statics.values().map(|v| v.clone()).collect();
    let root = J::obj(vec![
        ("crate", J::s(tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string())),
        ("bodies", J::Arr(bj)),
        ("impls", J::Arr(ij)),
        ("adts", J::Arr(std::mem::take(&mut d.adts))),
        ("statics", J::Arr(statics)),
        ("types", J::Arr(std::mem::take(&mut d.types))),
    ]);
    let mut s = String::new();
    root.write(&mut s);
    std::fs::write(out, s).expect("cannot write the facts");
}

impl rustc_driver::Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> rustc_driver::Compilation {
        let krate = std::env::var("MIRFACTS_CRATE").unwrap_or_default();
        if tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).as_str() == krate {
            if let Ok(out) = std::env::var("MIRFACTS_OUT") {
                dump(tcx, &out);
            }
        }
        rustc_driver::Compilation::Continue
    }
}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the path of rustc
    if args.len() > 1 && args[1].ends_with("rustc") {
        args.remove(1);
    }
    rustc_driver::catch_with_exit_code(|| rustc_driver::compiler_entrypoint(&args, &mut Cb))
}
