//! A rustc wrapper that dumps the type-checked program (polymorphic MIR with resolved callees,
//! type table, ADTs, impls, traits, constants) of selected crates as JSON.
//!
//! Used as RUSTC_WORKSPACE_WRAPPER. Environment:
//!   MIRDUMP_OUT     directory the JSON files go to
//!   MIRDUMP_CRATES  comma-separated crate names to dump
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, GenericArgsRef, Ty, TyCtxt, TypingEnv};
use rustc_span::Span;
use std::collections::HashMap;
use std::fmt::Write as _;

mod json;
use json::J;

struct Dump<'tcx> {
    tcx: TyCtxt<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<Ty<'tcx>, usize>,
    adts: HashMap<DefId, J>,
    adt_order: Vec<DefId>,
    /// monomorphic mode: every callee and constant body reachable from the roots is dumped too
    mono: bool,
    queue: Vec<Mono<'tcx>>,
    mono_ids: HashMap<Mono<'tcx>, usize>,
    stop: Vec<String>,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash)]
enum Mono<'tcx> {
    Fn(ty::Instance<'tcx>),
    /// a constant's body: the item, its arguments, which promoted
    Const(DefId, GenericArgsRef<'tcx>, Option<u32>),
}

fn s(x: impl Into<String>) -> J {
    J::S(x.into())
}
fn n(x: impl TryInto<i128>) -> J {
    J::I(x.try_into().ok().unwrap_or(-1))
}

impl<'tcx> Dump<'tcx> {
    fn mono_id(&mut self, m: Mono<'tcx>) -> usize {
        if let Some(&i) = self.mono_ids.get(&m) {
            return i;
        }
        let i = self.queue.len();
        self.queue.push(m);
        self.mono_ids.insert(m, i);
        i
    }
    /// the methods of the trait object a reference is turned into, by vtable slot
    fn vtable(&mut self, src: Ty<'tcx>, dst: Ty<'tcx>) -> Option<J> {
        let (a, b) = (src.builtin_deref(true)?, dst.builtin_deref(true)?);
        let ty::Dynamic(preds, ..) = b.kind() else { return None };
        if matches!(a.kind(), ty::Dynamic(..)) {
            return None;
        }
        let tr = preds.principal()?.with_self_ty(self.tcx, a);
        let tr = self.tcx.instantiate_bound_regions_with_erased(tr);
        let tr = self.tcx.erase_and_anonymize_regions(tr);
        let mut v = vec![];
        for e in self.tcx.vtable_entries(tr).iter() {
            v.push(match e {
                ty::VtblEntry::Method(i) => n(self.mono_id(Mono::Fn(*i)) as i128),
                _ => J::Null,
            });
        }
        Some(J::A(v))
    }
    fn env(&self, def: DefId) -> TypingEnv<'tcx> {
        if self.mono { TypingEnv::fully_monomorphized() } else { TypingEnv::post_analysis(self.tcx, def) }
    }
    /// monomorphic mode: the dump of one queued function or constant body
    fn mono_item(&mut self, m: Mono<'tcx>) -> J {
        let tcx = self.tcx;
        let env = TypingEnv::fully_monomorphized();
        let mut o = J::obj();
        match m {
            Mono::Fn(i) => {
                let d = i.def_id();
                let path = self.path(d);
                o.put("d", s(path.clone()));
                o.put("name", s(ty::print::with_no_trimmed_paths!(format!("{}", i))));
                o.put("k", s(format!("{:?}", i.def).split('(').next().unwrap_or("").to_string()));
                let a = self.args(i.args);
                o.put("a", a);
                if let Some(t) = tcx.trait_of_assoc(d) {
                    o.put("trait", s(self.path(t)));
                }
                if let Some(im) = tcx.impl_of_assoc(d) {
                    if let Some(t) = tcx.impl_opt_trait_ref(im) {
                        let t = t.skip_binder();
                        o.put("trait", s(self.path(t.def_id.into())));
                        let st = t.self_ty();
                        let st = ty::EarlyBinder::bind(tcx, st).instantiate(tcx, i.args).skip_norm_wip();
                        let st = self.ty(st);
                        o.put("self", n(st as i128));
                    }
                }
                if let ty::InstanceKind::Virtual(_, slot) = i.def {
                    o.put("slot", n(slot as i128));
                }
                if let Some(nm) = tcx.opt_item_name(d) {
                    o.put("m", s(nm.as_str()));
                }
                if d.is_local() || tcx.crate_name(d.krate).as_str().starts_with("multicalc") {
                    o.put("span", self.span(tcx.def_span(d)));
                }
                let stop = self.stop.iter().any(|p| if let Some(p) = p.strip_suffix('$') { path == p } else { path.starts_with(p.as_str()) });
                let has = match i.def {
                    ty::InstanceKind::Item(d) => tcx.is_mir_available(d),
                    ty::InstanceKind::Intrinsic(_) | ty::InstanceKind::Virtual(..) => false,
                    _ => true,
                };
                if has && !stop {
                    let b = tcx.instance_mir(i.def);
                    let b = i.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone()));
                    let j = self.body(d, &b);
                    o.put("body", j);
                }
            }
            Mono::Const(d, a, p) => {
                o.put("d", s(self.path(d)));
                o.put("k", s("Const"));
                let ja = self.args(a);
                o.put("a", ja);
                let b = match p {
                    Some(p) => Some(&tcx.promoted_mir(d)[Promoted::from_u32(p)]),
                    None if matches!(tcx.def_kind(d), DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::AnonConst | DefKind::Static { .. }) => Some(tcx.mir_for_ctfe(d)),
                    None => None,
                };
                if let Some(b) = b {
                    let i = ty::Instance::new_raw(d, a);
                    let b = i.instantiate_mir_and_normalize_erasing_regions(tcx, env, ty::EarlyBinder::bind(tcx, b.clone()));
                    let j = self.body(d, &b);
                    o.put("body", j);
                }
            }
        }
        o
    }
    fn path(&self, d: DefId) -> String {
        ty::print::with_no_trimmed_paths!(ty::print::with_crate_prefix!(self.tcx.def_path_str(d)))
            .replace("crate::", &format!("{}::", self.tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE)))
    }
    fn id(&self, d: DefId) -> String {
        format!("{}:{}", self.tcx.crate_name(d.krate), d.index.as_u32())
    }
    fn span(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let lo = self.tcx.sess.source_map().lookup_char_pos(sp.lo());
        J::S(format!(
            "{}:{}",
            lo.file.name.prefer_local_unconditionally(),
            lo.line
        ))
    }
    fn cnst(&mut self, c: ty::Const<'tcx>) -> J {
        let mut o = J::obj();
        match c.kind() {
            ty::ConstKind::Param(p) => {
                o.put("c", s("param"));
                o.put("name", s(p.name.as_str()));
            }
            ty::ConstKind::Value(v) => {
                o.put("c", s("val"));
                if let Some(i) = v.try_to_leaf() {
                    o.put("v", n(i.to_bits_unchecked() as i128));
                } else {
                    o.put("s", s(format!("{:?}", c)));
                }
            }
            _ => {
                o.put("c", s("other"));
                o.put("s", s(format!("{:?}", c)));
            }
        }
        o
    }
    fn args(&mut self, a: GenericArgsRef<'tcx>) -> J {
        let mut v = vec![];
        for x in a.iter() {
            match x.kind() {
                GenericArgKind::Type(t) => v.push(n(self.ty(t) as i128)),
                GenericArgKind::Const(c) => v.push(self.cnst(c)),
                GenericArgKind::Lifetime(_) => {}
                #[allow(unreachable_patterns)]
                _ => {}
            }
        }
        J::A(v)
    }
    fn ty(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.tcx.erase_and_anonymize_regions(t);
        if let Some(&i) = self.type_ids.get(&t) {
            return i;
        }
        let i = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert(t, i);
        let mut o = J::obj();
        match *t.kind() {
            ty::Bool => o.put("k", s("bool")),
            ty::Char => o.put("k", s("char")),
            ty::Int(x) => {
                o.put("k", s("int"));
                o.put("n", s(x.name_str()));
            }
            ty::Uint(x) => {
                o.put("k", s("uint"));
                o.put("n", s(x.name_str()));
            }
            ty::Float(x) => {
                o.put("k", s("float"));
                o.put("n", s(x.name_str()));
            }
            ty::Adt(d, a) => {
                o.put("k", s("adt"));
                o.put("d", s(self.path(d.did())));
                o.put("id", s(self.id(d.did())));
                let a = self.args(a);
                o.put("a", a);
                self.adt(d);
            }
            ty::Str => o.put("k", s("str")),
            ty::Array(e, l) => {
                o.put("k", s("array"));
                let e = self.ty(e);
                o.put("e", n(e as i128));
                let l = self.cnst(l);
                o.put("l", l);
            }
            ty::Slice(e) => {
                o.put("k", s("slice"));
                let e = self.ty(e);
                o.put("e", n(e as i128));
            }
            ty::RawPtr(e, m) => {
                o.put("k", s("ptr"));
                let e = self.ty(e);
                o.put("e", n(e as i128));
                o.put("m", J::B(m.is_mut()));
            }
            ty::Ref(_, e, m) => {
                o.put("k", s("ref"));
                let e = self.ty(e);
                o.put("e", n(e as i128));
                o.put("m", J::B(m.is_mut()));
            }
            ty::FnDef(d, a) => {
                o.put("k", s("fndef"));
                let d: DefId = d.into();
                o.put("d", s(self.path(d)));
                o.put("id", s(self.id(d)));
                let a = self.args(a.skip_binder());
                o.put("a", a);
            }
            ty::FnPtr(..) => {
                o.put("k", s("fnptr"));
                o.put("s", s(format!("{}", t)));
            }
            ty::Closure(d, a) => {
                o.put("k", s("closure"));
                let d: DefId = d.into();
                o.put("d", s(self.path(d)));
                o.put("id", s(self.id(d)));
                let ups: Vec<J> = a
                    .as_closure()
                    .upvar_tys()
                    .iter()
                    .map(|t| n(self.ty(t) as i128))
                    .collect();
                o.put("u", J::A(ups));
                let pa = a.as_closure().parent_args();
                let mut v = vec![];
                for x in pa.iter() {
                    match x.kind() {
                        GenericArgKind::Type(t) => v.push(n(self.ty(t) as i128)),
                        GenericArgKind::Const(c) => v.push(self.cnst(c)),
                        _ => {}
                    }
                }
                o.put("a", J::A(v));
            }
            ty::Never => o.put("k", s("never")),
            ty::Tuple(ts) => {
                o.put("k", s("tuple"));
                let v = ts.iter().map(|t| n(self.ty(t) as i128)).collect();
                o.put("a", J::A(v));
            }
            ty::Param(p) => {
                o.put("k", s("param"));
                o.put("name", s(p.name.as_str()));
            }
            ty::Alias(_, al) => {
                o.put("k", s("alias"));
                let did: Option<DefId> = match al.kind {
                    ty::AliasTyKind::Projection { def_id } => Some(def_id.into()),
                    ty::AliasTyKind::Inherent { def_id } => Some(def_id.into()),
                    ty::AliasTyKind::Opaque { def_id } => Some(def_id.into()),
                    ty::AliasTyKind::Free { def_id } => Some(def_id.into()),
                };
                if let Some(d) = did {
                    o.put("d", s(self.path(d)));
                }
                let a = self.args(al.args);
                o.put("a", a);
            }
            ty::Dynamic(..) => {
                o.put("k", s("dyn"));
                o.put("s", s(format!("{}", t)));
            }
            _ => {
                o.put("k", s("other"));
                o.put("s", s(format!("{}", t)));
            }
        }
        let pretty = ty::print::with_no_trimmed_paths!(format!("{}", t));
        o.put("p", s(pretty));
        self.types[i] = o;
        i
    }
    fn adt(&mut self, d: ty::AdtDef<'tcx>) {
        let did = d.did();
        if self.adts.contains_key(&did) {
            return;
        }
        self.adts.insert(did, J::Null);
        self.adt_order.push(did);
        let mut o = J::obj();
        o.put("id", s(self.id(did)));
        o.put("d", s(self.path(did)));
        o.put("kind", s(if d.is_enum() { "enum" } else if d.is_union() { "union" } else { "struct" }));
        o.put("local", J::B(did.is_local()));
        o.put("vis", s(self.vis(did)));
        let g = self.generics(did);
        o.put("generics", g);
        if did.is_local() {
            o.put("span", self.span(self.tcx.def_span(did)));
        }
        let ident = ty::GenericArgs::identity_for_item(self.tcx, did);
        let mut vs = vec![];
        for (vi, v) in d.variants().iter_enumerated() {
            let mut vo = J::obj();
            vo.put("n", s(v.name.as_str()));
            if d.is_enum() {
                let disc = d.discriminant_for_variant(self.tcx, vi);
                vo.put("disc", n(disc.val as i128));
            }
            let mut fs = vec![];
            for f in v.fields.iter() {
                let mut fo = J::obj();
                fo.put("n", s(f.name.as_str()));
                fo.put("vis", s(match f.vis {
                    ty::Visibility::Public => "pub".to_string(),
                    ty::Visibility::Restricted(m) => {
                        let m: DefId = m.into();
                        format!("in {}", self.path(m))
                    }
                }));
                let ft = f.ty(self.tcx, ident).skip_norm_wip();
                let fty = if did.is_local() || self.tcx.crate_name(did.krate).as_str().starts_with("multicalc")
                    || self.tcx.crate_name(did.krate).as_str() == "core" {
                    self.ty(ft) as i128
                } else { -1 };
                fo.put("t", n(fty));
                fs.push(fo);
            }
            vo.put("f", J::A(fs));
            vs.push(vo);
        }
        o.put("v", J::A(vs));
        self.adts.insert(did, o);
    }
    fn vis(&self, d: DefId) -> String {
        match self.tcx.visibility(d) {
            ty::Visibility::Public => "pub".into(),
            ty::Visibility::Restricted(m) => {
                let m: DefId = m.into();
                format!("in {}", self.path(m))
            }
        }
    }
    fn generics(&mut self, d: DefId) -> J {
        let mut v = vec![];
        let g = self.tcx.generics_of(d);
        let mut chain = vec![g];
        let mut cur = g;
        while let Some(p) = cur.parent {
            cur = self.tcx.generics_of(p);
            chain.push(cur);
        }
        for g in chain.into_iter().rev() {
            for p in &g.own_params {
                match p.kind {
                    ty::GenericParamDefKind::Lifetime => {}
                    ty::GenericParamDefKind::Type { .. } => v.push(J::A(vec![s("t"), s(p.name.as_str())])),
                    ty::GenericParamDefKind::Const { .. } => {
                        let t = self.tcx.type_of(p.def_id).instantiate_identity().skip_norm_wip();
                        let t = self.ty(t);
                        v.push(J::A(vec![s("c"), s(p.name.as_str()), n(t as i128)]))
                    }
                }
            }
        }
        J::A(v)
    }
    fn preds(&mut self, d: DefId) -> J {
        // trait predicates in scope: [type id, trait path]
        let mut v = vec![];
        let ps = self.tcx.clauses_of(d).instantiate_identity(self.tcx);
        for p in ps.clauses.iter() {
            let p = p.skip_norm_wip();
            if let Some(tp) = p.as_trait_clause() {
                let tr = tp.skip_binder().trait_ref;
                let st = self.ty(tr.self_ty());
                let a = self.args(tr.args);
                v.push(J::A(vec![n(st as i128), s(self.path(tr.def_id.into())), a]));
            }
        }
        J::A(v)
    }

    // ---- MIR ----
    fn place(&mut self, body: &Body<'tcx>, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_u32())];
        let mut pt = mir::PlaceTy::from_ty(body.local_decls[p.local].ty);
        for e in p.projection.iter() {
            let x = match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    let owner = match pt.ty.kind() {
                        ty::Adt(d, _) => {
                            let vi = pt.variant_index.unwrap_or(rustc_abi::FIRST_VARIANT);
                            s(format!("{}", d.variant(vi).fields[f].name))
                        }
                        _ => J::Null,
                    };
                    let own_ty = self.ty(pt.ty);
                    J::A(vec![s("f"), n(f.as_u32()), n(t as i128), owner, n(own_ty as i128)])
                }
                ProjectionElem::Index(l) => J::A(vec![s("i"), n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => J::A(vec![
                    s("ci"),
                    n(offset as i128),
                    n(min_length as i128),
                    J::B(from_end),
                ]),
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::A(vec![s("ss"), n(from as i128), n(to as i128), J::B(from_end)])
                }
                ProjectionElem::Downcast(name, vi) => J::A(vec![
                    s("d"),
                    n(vi.as_u32()),
                    name.map_or(J::Null, |n| s(n.as_str())),
                ]),
                _ => J::A(vec![s("?"), s(format!("{:?}", e))]),
            };
            v.push(x);
            pt = pt.projection_ty(self.tcx, e);
        }
        J::A(v)
    }
    fn const_value(&mut self, val: ConstValue, t: Ty<'tcx>, depth: usize) -> J {
        // fully monomorphic constants only
        let mut o = J::obj();
        let tid = self.ty(t);
        o.put("t", n(tid as i128));
        match val {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                o.put("bits", J::S(format!("{}", i.to_bits_unchecked())));
                o.put("size", n(i.size().bytes() as i128));
            }
            ConstValue::ZeroSized => o.put("zst", J::B(true)),
            ConstValue::Slice { .. } => {
                if let ty::Ref(_, inner, _) = t.kind() {
                    if inner.is_str() {
                        if let Some(b) = val.try_get_slice_bytes_for_diagnostics(self.tcx) {
                            o.put("str", s(String::from_utf8_lossy(b).into_owned()));
                        }
                    }
                }
            }
            _ => {}
        }
        if depth > 0 && matches!(t.kind(), ty::Array(..) | ty::Adt(..) | ty::Tuple(..)) {
            use ty::TypeVisitableExt;
            if !t.has_param() && !(matches!(t.kind(), ty::Adt(d, _) if d.variants().is_empty() || d.is_union())) {
                if let Some(d) = self.tcx.try_destructure_mir_constant_for_user_output(val, t) {
                    if d.fields.len() <= 4096 {
                        let fs: Vec<J> = d
                            .fields
                            .iter()
                            .map(|(v, t)| self.const_value(*v, *t, depth - 1))
                            .collect();
                        o.put("fields", J::A(fs));
                    }
                    if let Some(v) = d.variant {
                        o.put("variant", n(v.as_u32()));
                    }
                }
            }
        }
        o
    }
    fn konst(&mut self, c: &Const<'tcx>, env: TypingEnv<'tcx>) -> J {
        use ty::TypeVisitableExt;
        let mut o = J::obj();
        let t = c.ty();
        let tid = self.ty(t);
        o.put("t", n(tid as i128));
        if self.mono {
            if let ty::FnDef(d, a) = *t.kind() {
                let a = self.tcx.erase_and_anonymize_regions(a.skip_binder());
                if let Ok(Some(i)) = ty::Instance::try_resolve(self.tcx, env, d.into(), a) {
                    let i = self.mono_id(Mono::Fn(i));
                    o.put("inst", n(i as i128));
                }
                return o;
            }
            if let Const::Unevaluated(u, _) = c {
                let scalar = matches!(t.kind(), ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) | ty::Float(_));
                if scalar {
                    if let Ok(v) = c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                        let v = self.const_value(v, t, 1);
                        o.put("val", v);
                        return o;
                    }
                }
                let a = self.tcx.erase_and_anonymize_regions(u.args);
                let (d, a) = if u.promoted.is_none() {
                    match ty::Instance::try_resolve(self.tcx, env, u.def, a) {
                        Ok(Some(i)) => (i.def_id(), i.args),
                        _ => (u.def, a),
                    }
                } else { (u.def, a) };
                let i = self.mono_id(Mono::Const(d, a, u.promoted.map(|p| p.as_u32())));
                o.put("cinst", n(i as i128));
                return o;
            }
            if let Ok(v) = c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                let v = self.const_value(v, t, 6);
                o.put("val", v);
                return o;
            }
        }
        match c {
            Const::Ty(_, k) => {
                let k = self.cnst(*k);
                o.put("tc", k);
            }
            Const::Unevaluated(u, _) => {
                o.put("def", s(self.path(u.def)));
                o.put("did", s(self.id(u.def)));
                let a = self.args(u.args);
                o.put("args", a);
                if let Some(p) = u.promoted {
                    o.put("promoted", n(p.as_u32()));
                } else if !u.args.has_param() {
                    if let Ok(v) = c.eval(self.tcx, env, rustc_span::DUMMY_SP) {
                        let v = self.const_value(v, t, 1);
                        o.put("val", v);
                    }
                }
            }
            Const::Val(v, t) => {
                if !t.has_param() || matches!(v, ConstValue::Scalar(_)) {
                    let d = if matches!(t.kind(), ty::Adt(..) | ty::Tuple(..)) { 2 } else { 0 };
                    let v = self.const_value(*v, *t, d);
                    o.put("val", v);
                }
            }
        }
        o
    }
    fn operand(&mut self, body: &Body<'tcx>, op: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        match op {
            Operand::Copy(p) => {
                let p = self.place(body, p);
                J::A(vec![s("c"), p])
            }
            Operand::Move(p) => {
                let p = self.place(body, p);
                J::A(vec![s("m"), p])
            }
            Operand::Constant(c) => {
                let k = self.konst(&c.const_, env);
                J::A(vec![s("k"), k])
            }
            Operand::RuntimeChecks(r) => J::A(vec![s("rc"), s(format!("{:?}", r))]),
        }
    }
    fn rvalue(&mut self, body: &Body<'tcx>, r: &Rvalue<'tcx>, env: TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => {
                let o = self.operand(body, o, env);
                J::A(vec![s("use"), o])
            }
            Rvalue::Repeat(o, c) => {
                let o = self.operand(body, o, env);
                let c = self.cnst(*c);
                J::A(vec![s("repeat"), o, c])
            }
            Rvalue::Ref(_, bk, p) => {
                let p = self.place(body, p);
                let k = match bk {
                    BorrowKind::Shared => "shared",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "mut",
                };
                J::A(vec![s("ref"), s(k), p])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(body, p);
                J::A(vec![s("ref"), s(if m.is_mut() { "mut" } else { "shared" }), p])
            }
            Rvalue::ThreadLocalRef(d) => J::A(vec![s("tls"), s(self.path(*d))]),
            Rvalue::RawPtr(k, p) => {
                let p = self.place(body, p);
                J::A(vec![s("rawptr"), s(format!("{:?}", k)), p])
            }
            Rvalue::Cast(k, o, t) => {
                let src = o.ty(&body.local_decls, self.tcx);
                let vt = if self.mono { self.vtable(src, *t) } else { None };
                let o = self.operand(body, o, env);
                let t = self.ty(*t);
                let mut v = vec![s("cast"), s(format!("{:?}", k)), o, n(t as i128)];
                if let Some(vt) = vt {
                    v.push(vt);
                }
                J::A(v)
            }
            Rvalue::BinaryOp(b, bx) => {
                let l = self.operand(body, &bx.0, env);
                let r = self.operand(body, &bx.1, env);
                J::A(vec![s("bin"), s(format!("{:?}", b)), l, r])
            }
            Rvalue::UnaryOp(u, o) => {
                let o = self.operand(body, o, env);
                J::A(vec![s("un"), s(format!("{:?}", u)), o])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(body, p);
                J::A(vec![s("discr"), p])
            }
            Rvalue::Aggregate(k, ops) => {
                let v: Vec<J> = ops.iter().map(|o| self.operand(body, o, env)).collect();
                let kd = match &**k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(*t);
                        J::A(vec![s("array"), n(t as i128)])
                    }
                    AggregateKind::Tuple => J::A(vec![s("tuple")]),
                    AggregateKind::Adt(d, vi, a, _, f) => {
                        let def = self.tcx.adt_def(*d);
                        self.adt(def);
                        let a = self.args(a);
                        J::A(vec![
                            s("adt"),
                            s(self.path(*d)),
                            n(vi.as_u32()),
                            s(def.variant(*vi).name.as_str()),
                            a,
                            f.map_or(J::Null, |f| n(f.as_u32())),
                        ])
                    }
                    AggregateKind::Closure(d, _) => J::A(vec![s("closure"), s(self.path(*d)), s(self.id(*d))]),
                    _ => J::A(vec![s("other"), s(format!("{:?}", k))]),
                };
                J::A(vec![s("agg"), kd, J::A(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(body, p);
                J::A(vec![s("use"), J::A(vec![s("c"), p])])
            }
            _ => J::A(vec![s("other"), s(format!("{:?}", r))]),
        }
    }
    fn call_target(&mut self, f: &Operand<'tcx>, env: TypingEnv<'tcx>) -> J {
        let Operand::Constant(c) = f else {
            return J::Null;
        };
        let ty::FnDef(d, a) = *c.const_.ty().kind() else {
            return J::Null;
        };
        let d: DefId = d.into();
        let a = a.skip_binder();
        let mut o = J::obj();
        o.put("d", s(self.path(d)));
        o.put("id", s(self.id(d)));
        let ja = self.args(a);
        o.put("a", ja);
        if let Some(t) = self.tcx.trait_of_assoc(d) {
            o.put("trait", s(self.path(t)));
            o.put("m", s(self.tcx.item_name(d).as_str()));
        } else if matches!(self.tcx.def_kind(d), DefKind::AssocFn | DefKind::Fn) {
            o.put("m", s(self.tcx.item_name(d).as_str()));
        }
        let a = self.tcx.erase_and_anonymize_regions(a);
        if let Ok(Some(i)) = ty::Instance::try_resolve(self.tcx, env, d, a) {
            if self.mono {
                let i = self.mono_id(Mono::Fn(i));
                o.put("inst", n(i as i128));
                return o;
            }
            let rd = i.def_id();
            if rd != d || !matches!(i.def, ty::InstanceKind::Item(_)) {
                o.put("r", s(self.path(rd)));
                o.put("rid", s(self.id(rd)));
                o.put("rk", s(format!("{:?}", i.def).split('(').next().unwrap_or("").to_string()));
                let ra = self.args(i.args);
                o.put("ra", ra);
            } else {
                o.put("rk", s("Item"));
                o.put("r", s(self.path(rd)));
                o.put("rid", s(self.id(rd)));
            }
        }
        o
    }
    fn body(&mut self, def: DefId, body: &Body<'tcx>) -> J {
        let env = self.env(def);
        let mut o = J::obj();
        o.put("argc", n(body.arg_count as i128));
        let mut names: HashMap<Local, String> = HashMap::new();
        let mut upv = vec![];
        for v in &body.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.entry(p.local).or_insert(v.name.as_str().to_string());
                } else {
                    let pl = self.place(body, &p);
                    upv.push(J::A(vec![s(v.name.as_str()), pl]));
                }
            }
        }
        o.put("upv", J::A(upv));
        let ls: Vec<J> = body
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.ty(d.ty);
                match names.get(&l) {
                    Some(nm) => J::A(vec![n(t as i128), s(nm.clone())]),
                    None => J::A(vec![n(t as i128)]),
                }
            })
            .collect();
        o.put("locals", J::A(ls));
        let mut bbs = vec![];
        for (_bb, data) in body.basic_blocks.iter_enumerated() {
            let mut b = J::obj();
            if data.is_cleanup {
                b.put("cl", J::B(true));
            }
            let mut st = vec![];
            for x in &data.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(body, &bx.0);
                        let r = self.rvalue(body, &bx.1, env);
                        st.push(J::A(vec![s("="), p, r, self.span(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(body, place);
                        st.push(J::A(vec![s("setd"), p, n(variant_index.as_u32())]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(J::A(vec![s("intr"), s(format!("{:?}", i))]));
                    }
                    _ => {}
                }
            }
            b.put("s", J::A(st));
            let t = data.terminator();
            let sp = self.span(t.source_info.span);
            let mut to = J::obj();
            to.put("sp", sp);
            match &t.kind {
                TerminatorKind::Goto { target, .. } => {
                    to.put("k", s("goto"));
                    to.put("t", n(target.as_u32()));
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    to.put("k", s("goto"));
                    to.put("t", n(real_target.as_u32()));
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    to.put("k", s("goto"));
                    to.put("t", n(real_target.as_u32()));
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    to.put("k", s("switch"));
                    let dty = discr.ty(&body.local_decls, self.tcx);
                    let dt = self.ty(dty);
                    to.put("dt", n(dt as i128));
                    let d = self.operand(body, discr, env);
                    to.put("d", d);
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, b)| J::A(vec![J::S(format!("{}", v)), n(b.as_u32())]))
                        .collect();
                    to.put("v", J::A(v));
                    to.put("o", n(targets.otherwise().as_u32()));
                }
                TerminatorKind::Return => to.put("k", s("return")),
                TerminatorKind::Unreachable => to.put("k", s("unreachable")),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => to.put("k", s("resume")),
                TerminatorKind::Drop { place, target, .. } => {
                    to.put("k", s("drop"));
                    let pt = place.ty(&body.local_decls, self.tcx).ty;
                    let p = self.place(body, place);
                    to.put("p", p);
                    let tt = self.ty(pt);
                    to.put("ty", n(tt as i128));
                    to.put("t", n(target.as_u32()));
                }
                TerminatorKind::Call { func, args, destination, target, .. } => {
                    to.put("k", s("call"));
                    let f = self.call_target(func, env);
                    let isnull = matches!(f, J::Null);
                    to.put("f", f);
                    if isnull {
                        let fo = self.operand(body, func, env);
                        to.put("fo", fo);
                    }
                    let a: Vec<J> = args.iter().map(|a| self.operand(body, &a.node, env)).collect();
                    to.put("a", J::A(a));
                    let d = self.place(body, destination);
                    to.put("dst", d);
                    to.put("t", target.map_or(J::Null, |t| n(t.as_u32())));
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    to.put("k", s("assert"));
                    let c = self.operand(body, cond, env);
                    to.put("c", c);
                    to.put("e", J::B(*expected));
                    let (k, ops): (String, Vec<&Operand<'tcx>>) = match &**msg {
                        AssertKind::BoundsCheck { len, index } => ("bounds".into(), vec![len, index]),
                        AssertKind::Overflow(b, l, r) => (format!("overflow {:?}", b), vec![l, r]),
                        AssertKind::OverflowNeg(o) => ("overflow Neg".into(), vec![o]),
                        AssertKind::DivisionByZero(o) => ("div0".into(), vec![o]),
                        AssertKind::RemainderByZero(o) => ("rem0".into(), vec![o]),
                        m => (format!("other {:?}", m), vec![]),
                    };
                    to.put("m", s(k));
                    let ops = ops.into_iter().map(|o| self.operand(body, o, env)).collect();
                    to.put("ops", J::A(ops));
                    to.put("t", n(target.as_u32()));
                }
                k => {
                    to.put("k", s("other"));
                    to.put("s", s(format!("{:?}", k)));
                }
            }
            b.put("t", to);
            bbs.push(b);
        }
        o.put("bb", J::A(bbs));
        o
    }

    fn item(&mut self, ld: LocalDefId) -> Option<J> {
        let tcx = self.tcx;
        let def = ld.to_def_id();
        let kind = tcx.def_kind(def);
        let mut o = J::obj();
        o.put("id", s(self.id(def)));
        o.put("d", s(self.path(def)));
        o.put("kind", s(format!("{:?}", kind)));
        o.put("span", self.span(tcx.def_span(def)));
        o.put("vis", s(match kind {
            DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } => self.vis(def),
            _ => "n/a".into(),
        }));
        let reach = tcx.effective_visibilities(()).is_reachable(ld);
        o.put("reach", J::B(reach));
        let exported = tcx.effective_visibilities(()).is_exported(ld);
        o.put("exported", J::B(exported));
        let root = tcx.typeck_root_def_id(def);
        if root != def {
            o.put("root", s(self.id(root)));
            o.put("parent", s(self.id(tcx.parent(def))));
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::Closure) {
            let g = self.generics(root);
            o.put("generics", g);
            let p = self.preds(root);
            o.put("preds", p);
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Const { .. } | DefKind::AssocConst { .. }) {
            o.put("name", s(tcx.item_name(def).as_str()));
            let par = tcx.parent(def);
            match tcx.def_kind(par) {
                DefKind::Impl { of_trait } => {
                    let st = tcx.type_of(par).instantiate_identity().skip_norm_wip();
                    let st = self.ty(st);
                    o.put("self", n(st as i128));
                    o.put("impl", s(self.id(par)));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(par).instantiate_identity().skip_norm_wip();
                        o.put("trait", s(self.path(tr.def_id.into())));
                        let ta = self.args(tr.args);
                        o.put("trait_args", ta);
                    }
                }
                DefKind::Trait => {
                    o.put("in_trait", s(self.path(par)));
                }
                _ => {}
            }
        }
        if matches!(kind, DefKind::Fn | DefKind::AssocFn) {
            let sig = tcx.fn_sig(def).instantiate_identity().skip_norm_wip().skip_binder();
            let ins: Vec<J> = sig.inputs().iter().map(|t| n(self.ty(*t) as i128)).collect();
            o.put("in", J::A(ins));
            let out = self.ty(sig.output());
            o.put("out", n(out as i128));
            o.put("unsafe", J::B(sig.safety().is_unsafe()));
            o.put("const", J::B(tcx.is_const_fn(def)));
            o.put("has_self", J::B(tcx.opt_associated_item(def).is_some_and(|a| a.is_method())));
        }
        let is_fn = matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure);
        let is_const = matches!(kind, DefKind::Const { .. } | DefKind::AssocConst { .. } | DefKind::Static { .. } | DefKind::AnonConst);
        if is_fn {
            let b = tcx.optimized_mir(def);
            let j = self.body(def, b);
            o.put("body", j);
        } else if is_const {
            let b = tcx.mir_for_ctfe(def);
            // very large table constants: keep value, drop body
            let nst: usize = b.basic_blocks.iter().map(|x| x.statements.len()).sum();
            if nst < 20000 {
                let j = self.body(def, b);
                o.put("body", j);
            }
            if !matches!(kind, DefKind::AnonConst) {
                use ty::TypeVisitableExt;
                let t = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                let tid = self.ty(t);
                o.put("ty", n(tid as i128));
                let generic = tcx.generics_of(def).requires_monomorphization(tcx);
                if !generic && !t.has_param() && !matches!(kind, DefKind::Static { .. }) {
                    if let Ok(v) = tcx.const_eval_poly(def) {
                        let v = self.const_value(v, t, 6);
                        o.put("value", v);
                    }
                }
            }
        } else {
            return None;
        }
        if is_fn || is_const {
            let pr = tcx.promoted_mir(def);
            let v: Vec<J> = pr.iter().map(|b| self.body(def, b)).collect();
            if !v.is_empty() {
                o.put("promoted", J::A(v));
            }
        }
        Some(o)
    }
}

struct Cb;
impl Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE).to_string();
        let out = std::env::var("MIRDUMP_OUT").unwrap();
        let mut d = Dump { tcx, types: vec![], type_ids: HashMap::new(), adts: HashMap::new(), adt_order: vec![], mono: false, queue: vec![], mono_ids: HashMap::new(), stop: vec![] };
        if std::env::var("MIRDUMP_MONO").is_ok_and(|m| m == name) {
            d.mono = true;
            d.stop = std::env::var("MIRDUMP_STOP").unwrap_or_default().split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect();
            let mut roots = vec![];
            for &ld in tcx.mir_keys(()).iter() {
                let def = ld.to_def_id();
                if tcx.def_kind(def) == DefKind::Fn && !tcx.generics_of(def).requires_monomorphization(tcx) && tcx.visibility(def).is_public() {
                    let i = d.mono_id(Mono::Fn(ty::Instance::mono(tcx, def)));
                    roots.push(J::A(vec![s(d.path(def)), n(i as i128)]));
                }
            }
            let mut items = vec![];
            while items.len() < d.queue.len() {
                let m = d.queue[items.len()];
                let j = d.mono_item(m);
                items.push(j);
            }
            let mut root = J::obj();
            root.put("roots", J::A(roots));
            root.put("items", J::A(items));
            let mut adts = vec![];
            let mut i = 0;
            while i < d.adt_order.len() {
                adts.push(d.adts[&d.adt_order[i]].clone());
                i += 1;
            }
            root.put("adts", J::A(adts));
            root.put("types", J::A(std::mem::take(&mut d.types)));
            let mut text = String::new();
            root.write(&mut text);
            std::fs::write(format!("{out}/{name}.mono.json"), text).unwrap();
            return Compilation::Continue;
        }
        let mut fns = vec![];
        for &ld in tcx.mir_keys(()).iter() {
            if let Some(j) = d.item(ld) {
                fns.push(j);
            }
        }
        // impls and traits
        let mut impls = vec![];
        let mut traits = vec![];
        let mut modules = vec![];
        let mut statics = vec![];
        for id in tcx.hir_crate_items(()).free_items() {
            let def = id.owner_id.to_def_id();
            match tcx.def_kind(def) {
                DefKind::Impl { of_trait } => {
                    let mut o = J::obj();
                    o.put("id", s(d.id(def)));
                    o.put("span", d.span(tcx.def_span(def)));
                    let st = tcx.type_of(def).instantiate_identity().skip_norm_wip();
                    let st = d.ty(st);
                    o.put("self", n(st as i128));
                    if of_trait {
                        let tr = tcx.impl_trait_ref(def).instantiate_identity().skip_norm_wip();
                        o.put("trait", s(d.path(tr.def_id.into())));
                        let ta = d.args(tr.args);
                        o.put("trait_args", ta);
                        o.put("derived", J::B(tcx.is_automatically_derived(def)));
                    }
                    let g = d.generics(def);
                    o.put("generics", g);
                    let items: Vec<J> = tcx
                        .associated_items(def)
                        .in_definition_order()
                        .map(|a| J::A(vec![s(a.opt_name().map_or("".to_string(), |n| n.to_string())), s(d.id(a.def_id)), s(format!("{:?}", a.kind).split(|c| c == '{' || c == ' ').next().unwrap_or("").to_string())]))
                        .collect();
                    o.put("items", J::A(items));
                    impls.push(o);
                }
                DefKind::Trait => {
                    let mut o = J::obj();
                    o.put("id", s(d.id(def)));
                    o.put("d", s(d.path(def)));
                    o.put("vis", s(d.vis(def)));
                    let items: Vec<J> = tcx
                        .associated_items(def)
                        .in_definition_order()
                        .map(|a| J::A(vec![s(a.opt_name().map_or("".to_string(), |n| n.to_string())), s(d.id(a.def_id)), J::B(a.defaultness(tcx).has_value())]))
                        .collect();
                    o.put("items", J::A(items));
                    traits.push(o);
                }
                DefKind::Mod => modules.push(J::A(vec![s(d.path(def)), d.span(tcx.def_span(def)), s(d.vis(def))])),
                DefKind::Static { mutability, .. } => {
                    statics.push(J::A(vec![s(d.path(def)), d.span(tcx.def_span(def)), J::B(mutability.is_mut())]))
                }
                DefKind::Struct | DefKind::Enum | DefKind::Union => {
                    let a = tcx.adt_def(def);
                    d.adt(a);
                }
                _ => {}
            }
        }
        // type aliases / reexports omitted
        let mut root = J::obj();
        root.put("crate", s(name.clone()));
        let feats: Vec<J> = tcx
            .sess
            .config
            .iter()
            .filter(|(k, _)| k.as_str() == "feature")
            .map(|(_, v)| s(v.map_or("".into(), |v| v.to_string())))
            .collect();
        root.put("features", J::A(feats));
        root.put("fns", J::A(fns));
        root.put("impls", J::A(impls));
        root.put("traits", J::A(traits));
        root.put("modules", J::A(modules));
        root.put("statics", J::A(statics));
        let mut adts = vec![];
        let mut i = 0;
        while i < d.adt_order.len() {
            adts.push(d.adts[&d.adt_order[i]].clone());
            i += 1;
        }
        // which ADTs are Copy / Send etc is checked elsewhere
        root.put("adts", J::A(adts));
        root.put("types", J::A(std::mem::take(&mut d.types)));
        let mut text = String::new();
        root.write(&mut text);
        let mut suffix = String::new();
        let _ = write!(suffix, "{}", std::env::var("MIRDUMP_TAG").unwrap_or_default());
        std::fs::write(format!("{out}/{name}{suffix}.json"), text).unwrap();
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // cargo passes: wrapper rustc args...
    args.remove(0);
    let crates = std::env::var("MIRDUMP_CRATES").unwrap_or_default();
    let wanted: Vec<&str> = crates.split(',').collect();
    let mut name = String::new();
    for w in args.windows(2) {
        if w[0] == "--crate-name" {
            name = w[1].clone();
        }
    }
    let is_test = args.iter().any(|a| a == "--test");
    struct Nop;
    impl Callbacks for Nop {}
    if wanted.contains(&name.as_str()) && !is_test {
        args.push("-Zmir-opt-level=0".into());
        args.push("-Coverflow-checks=on".into());
        args.push("-Zalways-encode-mir".into());
        args.push("-Zinline-mir=no".into());
        let mono = std::env::var("MIRDUMP_MONO").unwrap_or_default();
        if mono.is_empty() || mono == name {
            rustc_driver::compiler_entrypoint(&args, &mut Cb);
        } else {
            rustc_driver::compiler_entrypoint(&args, &mut Nop);
        }
    } else {
        rustc_driver::compiler_entrypoint(&args, &mut Nop);
    }
}
