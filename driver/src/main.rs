//! Dumps the MIR of every body of a workspace crate as JSON, with callees resolved, constants
//! evaluated and types structured, for the analyses in ../engine.
//!
//! Injected as RUSTC_WORKSPACE_WRAPPER under `cargo check`.  The MIR is the one just built from
//! the type-checked program (`mir_built`), before any transformation, so that nothing in it
//! depends on optimisation.
#![feature(rustc_private)]
#![allow(clippy::all)]

extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

use rustc_driver::{Callbacks, Compilation};
use rustc_hir::def::DefKind;
use rustc_hir::def_id::{DefId, LocalDefId};
use rustc_interface::interface;
use rustc_middle::mir::{self, *};
use rustc_middle::ty::{self, GenericArgKind, Ty, TyCtxt, TyKind};
use rustc_span::Span;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::fmt::Write as _;

/// A JSON value that is already rendered.
type J = String;

fn s(x: &str) -> J {
    let mut o = String::with_capacity(x.len() + 2);
    o.push('"');
    for c in x.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 0x20 || (c as u32) > 0x7e => {
                let mut b = [0u16; 2];
                for u in c.encode_utf16(&mut b) {
                    let _ = write!(o, "\\u{:04x}", u);
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn arr<I: IntoIterator<Item = J>>(it: I) -> J {
    let v: Vec<J> = it.into_iter().collect();
    format!("[{}]", v.join(","))
}
fn obj(kv: &[(&str, J)]) -> J {
    let v: Vec<J> = kv.iter().map(|(k, v)| format!("{}:{}", s(k), v)).collect();
    format!("{{{}}}", v.join(","))
}
fn bytes(b: &[u8]) -> J {
    let mut o = String::new();
    for x in b {
        let _ = write!(o, "{:02x}", x);
    }
    s(&o)
}

struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    adts: HashSet<DefId>,
    adt_done: HashMap<DefId, (String, J)>,
}

impl<'tcx> Cx<'tcx> {
    /// A stable, readable path, e.g. `scutiger_core::pktline::Reader::read_one`,
    /// `<scutiger_core::pktline::Reader as std::io::Read>::read`.
    fn path(&self, d: DefId) -> String {
        let tcx = self.tcx;
        let key = tcx.def_key(d);
        match tcx.def_kind(d) {
            DefKind::Mod if key.parent.is_none() => return tcx.crate_name(d.krate).to_string(),
            DefKind::Impl { .. } => {
                let self_ty = tcx.type_of(d).instantiate_identity().skip_norm_wip();
                let head = self.head(self_ty);
                return match tcx.impl_opt_trait_ref(d) {
                    Some(t) => {
                        let t = t.instantiate_identity().skip_norm_wip();
                        let args: Vec<String> = t.args[1..]
                            .iter()
                            .filter_map(|a| match a.kind() {
                                GenericArgKind::Type(t) => Some(self.head(t)),
                                _ => None,
                            })
                            .collect();
                        let args = if args.is_empty() {
                            String::new()
                        } else {
                            format!("<{}>", args.join(","))
                        };
                        format!("<{} as {}{}>", head, self.path(t.def_id), args)
                    }
                    None => head,
                };
            }
            _ => {}
        }
        if key.parent.is_none() {
            return tcx.crate_name(d.krate).to_string();
        }
        let parent = DefId { krate: d.krate, index: key.parent.unwrap() };
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            return self.path(parent);
        }
        if matches!(tcx.def_kind(d), DefKind::ForeignMod) {
            return self.path(parent);
        }
        let p = self.path(parent);
        let data = key.disambiguated_data;
        let name = match data.data.get_opt_name() {
            Some(n) => {
                if data.disambiguator > 0 {
                    format!("{}#{}", n, data.disambiguator)
                } else {
                    n.to_string()
                }
            }
            None => format!("{{{}#{}}}", match tcx.def_kind(d) {
                DefKind::Closure => "closure",
                DefKind::AnonConst => "const",
                _ => "anon",
            }, data.disambiguator),
        };
        format!("{}::{}", p, name)
    }

    fn head(&self, t: Ty<'tcx>) -> String {
        match t.kind() {
            TyKind::Adt(a, _) => self.path(a.did()),
            TyKind::Ref(_, t, _) => format!("&{}", self.head(*t)),
            TyKind::Slice(t) => format!("[{}]", self.head(*t)),
            TyKind::Array(t, _) => format!("[{};_]", self.head(*t)),
            TyKind::Dynamic(p, _) => match p.principal_def_id() {
                Some(d) => format!("dyn {}", self.path(d)),
                None => "dyn".into(),
            },
            TyKind::Param(p) => p.name.to_string(),
            TyKind::Tuple(ts) => {
                let v: Vec<String> = ts.iter().map(|t| self.head(t)).collect();
                format!("({})", v.join(","))
            }
            _ => t.to_string(),
        }
    }

    fn args(&mut self, args: ty::GenericArgsRef<'tcx>) -> J {
        let v: Vec<J> = args
            .iter()
            .filter_map(|a| match a.kind() {
                GenericArgKind::Type(t) => Some(self.ty(t)),
                GenericArgKind::Const(c) => Some(obj(&[
                    ("k", s("const")),
                    ("v", match c.try_to_target_usize(self.tcx) {
                        Some(n) => n.to_string(),
                        None => "null".into(),
                    }),
                    ("s", s(&c.to_string())),
                ])),
                _ => None,
            })
            .collect();
        arr(v)
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        match *t.kind() {
            TyKind::Bool | TyKind::Char | TyKind::Int(_) | TyKind::Uint(_) | TyKind::Float(_)
            | TyKind::Str | TyKind::Never => obj(&[("k", s(&t.to_string()))]),
            TyKind::Adt(a, args) => {
                self.adts.insert(a.did());
                let aj = self.args(args);
                obj(&[("k", s("adt")), ("p", s(&self.path(a.did()))), ("a", aj)])
            }
            TyKind::Array(e, n) => {
                let ej = self.ty(e);
                obj(&[("k", s("array")), ("a", arr([ej])), ("n", match n.try_to_target_usize(self.tcx) {
                    Some(n) => n.to_string(),
                    None => s(&n.to_string()),
                })])
            }
            TyKind::Slice(e) => {
                let ej = self.ty(e);
                obj(&[("k", s("slice")), ("a", arr([ej]))])
            }
            TyKind::RawPtr(e, m) => {
                let ej = self.ty(e);
                obj(&[("k", s("ptr")), ("m", m.is_mut().to_string()), ("a", arr([ej]))])
            }
            TyKind::Ref(_, e, m) => {
                let ej = self.ty(e);
                obj(&[("k", s("ref")), ("m", m.is_mut().to_string()), ("a", arr([ej]))])
            }
            TyKind::FnDef(d, args) => {
                let aj = self.args(args.no_bound_vars().unwrap());
                let r = self.callee(d.into(), args.no_bound_vars().unwrap(), None);
                obj(&[("k", s("fndef")), ("p", s(&self.path(d.into()))), ("a", aj), ("r", r)])
            }
            TyKind::FnPtr(..) => obj(&[("k", s("fnptr")), ("s", s(&t.to_string()))]),
            TyKind::Dynamic(preds, _) => {
                let p = match preds.principal() {
                    Some(p) => {
                        let p = p.skip_binder();
                        let aj = self.args(p.args);
                        obj(&[("p", s(&self.path(p.def_id))), ("a", aj)])
                    }
                    None => "null".into(),
                };
                obj(&[("k", s("dyn")), ("t", p)])
            }
            TyKind::Closure(d, args) => {
                let pa = args.as_closure().parent_args();
                let v: Vec<J> = pa
                    .iter()
                    .filter_map(|a| match a.kind() {
                        GenericArgKind::Type(t) => Some(self.ty(t)),
                        _ => None,
                    })
                    .collect();
                obj(&[("k", s("closure")), ("p", s(&self.path(d.into()))), ("a", arr(v))])
            }
            TyKind::Tuple(ts) => {
                let v: Vec<J> = ts.iter().map(|t| self.ty(t)).collect();
                obj(&[("k", s("tuple")), ("a", arr(v))])
            }
            TyKind::Param(p) => obj(&[("k", s("param")), ("n", s(p.name.as_str()))]),
            TyKind::Alias(_, a) => {
                let aj = self.args(a.args);
                obj(&[("k", s("alias")), ("p", s(&t.to_string())), ("a", aj)])
            }
            _ => obj(&[("k", s("other")), ("s", s(&t.to_string()))]),
        }
    }

    /// The callee of a function item with the given generic arguments.
    fn callee(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>, env: Option<ty::TypingEnv<'tcx>>) -> J {
        let tcx = self.tcx;
        let mut kv = vec![("p", s(&self.path(d)))];
        let aj = self.args(args);
        kv.push(("a", aj));
        if let Some(t) = tcx.trait_of_assoc(d) {
            kv.push(("trait", s(&self.path(t))));
        }
        if matches!(tcx.def_kind(d), DefKind::Ctor(..)) {
            let v = tcx.parent(d);
            // A tuple constructor used as a function.
            let (adt, vidx) = match tcx.def_kind(v) {
                DefKind::Variant => {
                    let adt = tcx.parent(v);
                    (adt, tcx.adt_def(adt).variant_index_with_id(v).as_usize())
                }
                _ => (v, 0),
            };
            self.adts.insert(adt);
            kv.push(("ctor", arr([s(&self.path(adt)), vidx.to_string()])));
        } else if let Some(env) = env {
            let args = tcx.erase_and_anonymize_regions(args);
            if matches!(tcx.def_kind(d), DefKind::Fn | DefKind::AssocFn) {
                if let Ok(Some(inst)) = ty::Instance::try_resolve(tcx, env, d, args) {
                    let rd = inst.def_id();
                    if rd != d || matches!(inst.def, ty::InstanceKind::Virtual(..)) {
                        let virt = matches!(inst.def, ty::InstanceKind::Virtual(..));
                        let aj = self.args(inst.args);
                        kv.push(("res", obj(&[
                            ("p", s(&self.path(rd))),
                            ("a", aj),
                            ("kind", s(&format!("{:?}", inst.def).split('(').next().unwrap())),
                            ("virt", virt.to_string()),
                        ])));
                    } else {
                        kv.push(("resolved", "true".into()));
                    }
                }
            }
        }
        obj(&kv)
    }

    fn loc(&self, sp: Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let l = sm.lookup_char_pos(sp.lo());
        s(&format!("{}:{}", l.file.name.prefer_local_unconditionally(), l.line))
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![p.local.as_usize().to_string()];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => arr([s("*")]),
                ProjectionElem::Field(f, t) => {
                    let tj = self.ty(t);
                    arr([s("f"), f.as_usize().to_string(), tj])
                }
                ProjectionElem::Index(l) => arr([s("i"), l.as_usize().to_string()]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    arr([s("ci"), offset.to_string(), min_length.to_string(), from_end.to_string()])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    arr([s("ss"), from.to_string(), to.to_string(), from_end.to_string()])
                }
                ProjectionElem::Downcast(_, v) => arr([s("v"), v.as_usize().to_string()]),
                other => arr([s("?"), s(&format!("{:?}", other))]),
            });
        }
        arr(v)
    }

    fn read_indirect(&mut self, alloc: mir::interpret::AllocId, t: Ty<'tcx>) -> Option<J> {
        // &[u8; N]
        let tcx = self.tcx;
        if let TyKind::Ref(_, inner, _) = t.kind() {
            if let TyKind::Array(e, n) = inner.kind() {
                if *e == tcx.types.u8 {
                    let n = n.try_to_target_usize(tcx)? as usize;
                    let a = tcx.global_alloc(alloc);
                    if let mir::interpret::GlobalAlloc::Memory(m) = a {
                        let b = m.inner().inspect_with_uninit_and_ptr_outside_interpreter(0..n);
                        return Some(obj(&[("b", bytes(b))]));
                    }
                }
            }
        }
        None
    }

    fn const_val(&mut self, v: ConstValue, t: Ty<'tcx>) -> J {
        let tcx = self.tcx;
        match v {
            ConstValue::Scalar(mir::interpret::Scalar::Int(i)) => {
                let sz = i.size();
                match t.kind() {
                    TyKind::Int(_) => obj(&[("i", s(&i.to_int(sz).to_string()))]),
                    _ => obj(&[("i", s(&i.to_uint(sz).to_string()))]),
                }
            }
            ConstValue::Scalar(mir::interpret::Scalar::Ptr(p, _)) => {
                let (prov, off) = p.prov_and_relative_offset();
                if off.bytes() == 0 {
                    if let Some(j) = self.read_indirect(prov.alloc_id(), t) {
                        return j;
                    }
                }
                obj(&[("q", s("ptr"))])
            }
            ConstValue::ZeroSized => obj(&[("z", "true".into())]),
            ConstValue::Slice { .. } => match v.try_get_slice_bytes_for_diagnostics(tcx) {
                Some(b) => obj(&[("b", bytes(b))]),
                None => obj(&[("q", s("slice"))]),
            },
            ConstValue::Indirect { .. } => {
                if let TyKind::Ref(_, inner, _) = t.kind() {
                    let is = inner.is_str() || matches!(inner.kind(), TyKind::Slice(e) if *e == tcx.types.u8);
                    if is {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            return obj(&[("b", bytes(b))]);
                        }
                    }
                }
                obj(&[("q", s("indirect"))])
            }
        }
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        let tcx = self.tcx;
        let t = c.const_.ty();
        if let TyKind::FnDef(d, args) = *t.kind() {
            let r = self.callee(d.into(), args.no_bound_vars().unwrap(), Some(env));
            return arr([s("fn"), r]);
        }
        let tj = self.ty(t);
        let mut v = None;
        let mut name = None;
        match c.const_ {
            mir::Const::Val(cv, _) => v = Some(self.const_val(cv, t)),
            mir::Const::Unevaluated(u, _) => {
                name = Some(self.path(u.def));
                let u2 = tcx.erase_and_anonymize_regions(u);
                let r = tcx
                    .const_eval_resolve(env, u2, c.span)
                    .ok()
                    .or_else(|| tcx.const_eval_poly(u.def).ok());
                if let Some(cv) = r {
                    v = Some(self.const_val(cv, t));
                }
                if u.promoted.is_some() {
                    name = Some("promoted".into());
                }
            }
            mir::Const::Ty(_, c) => {
                if let Some(x) = c.try_to_scalar() {
                    if let mir::interpret::Scalar::Int(i) = x {
                        v = Some(obj(&[("i", s(&i.to_uint(i.size()).to_string()))]));
                    }
                } else {
                    name = Some(c.to_string());
                }
            }
        }
        // A constant that wraps a static's address.
        arr([
            s("c"),
            tj,
            v.unwrap_or("null".into()),
            name.map(|n| s(&n)).unwrap_or("null".into()),
        ])
    }

    fn operand(&mut self, o: &Operand<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let p = self.place(p);
                arr([s("cp"), p])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                arr([s("mv"), p])
            }
            Operand::Constant(c) => self.constant(c, env),
            Operand::RuntimeChecks(_) => arr([s("rt")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, env: ty::TypingEnv<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => {
                let o = self.operand(o, env);
                arr([s("use"), o])
            }
            Rvalue::Repeat(o, n) => {
                let o = self.operand(o, env);
                arr([s("rep"), o, match n.try_to_target_usize(self.tcx) {
                    Some(n) => n.to_string(),
                    None => "null".into(),
                }])
            }
            Rvalue::Ref(_, k, p) => {
                let m = match k {
                    BorrowKind::Shared => "s",
                    BorrowKind::Fake(_) => "fake",
                    BorrowKind::Mut { .. } => "m",
                };
                let p = self.place(p);
                arr([s("ref"), s(m), p])
            }
            Rvalue::RawPtr(k, p) => {
                let p = self.place(p);
                arr([s("ref"), s(&format!("raw{:?}", k)), p])
            }
            Rvalue::Cast(k, o, t) => {
                let o = self.operand(o, env);
                let t = self.ty(*t);
                arr([s("cast"), s(&format!("{:?}", k)), o, t])
            }
            Rvalue::BinaryOp(op, ab) => {
                let a = self.operand(&ab.0, env);
                let b = self.operand(&ab.1, env);
                arr([s("bin"), s(&format!("{:?}", op)), a, b])
            }
            Rvalue::UnaryOp(op, a) => {
                let a = self.operand(a, env);
                arr([s("un"), s(&format!("{:?}", op)), a])
            }
            Rvalue::Discriminant(p) => {
                let p = self.place(p);
                arr([s("discr"), p])
            }
            Rvalue::Aggregate(k, ops) => {
                let kj = match **k {
                    AggregateKind::Array(t) => {
                        let t = self.ty(t);
                        arr([s("array"), t])
                    }
                    AggregateKind::Tuple => arr([s("tuple")]),
                    AggregateKind::Adt(d, v, args, _, f) => {
                        self.adts.insert(d);
                        let aj = self.args(args);
                        arr([
                            s("adt"),
                            s(&self.path(d)),
                            v.as_usize().to_string(),
                            aj,
                            f.map(|f| f.as_usize().to_string()).unwrap_or("null".into()),
                        ])
                    }
                    AggregateKind::Closure(d, args) => {
                        let pa = args.as_closure().parent_args();
                        let v: Vec<J> = pa
                            .iter()
                            .filter_map(|a| match a.kind() {
                                GenericArgKind::Type(t) => Some(self.ty(t)),
                                _ => None,
                            })
                            .collect();
                        arr([s("closure"), s(&self.path(d)), arr(v)])
                    }
                    _ => arr([s("other")]),
                };
                let v: Vec<J> = ops.iter().map(|o| self.operand(o, env)).collect();
                arr([s("agg"), kj, arr(v)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                arr([s("use"), arr([s("cp"), p])])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p);
                arr([s("ref"), s(if m.is_mut() { "m" } else { "s" }), p])
            }
            Rvalue::ThreadLocalRef(d) => arr([s("tls"), s(&self.path(*d))]),
            Rvalue::WrapUnsafeBinder(o, _) => {
                let o = self.operand(o, env);
                arr([s("use"), o])
            }
        }
    }

    fn body(&mut self, def: LocalDefId, b: &Body<'tcx>) -> J {
        let tcx = self.tcx;
        let env = ty::TypingEnv::non_body_analysis(tcx, def);
        let mut names: BTreeMap<usize, String> = BTreeMap::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                if p.projection.is_empty() {
                    names.insert(p.local.as_usize(), v.name.to_string());
                }
            }
        }
        let locals: Vec<J> = b
            .local_decls
            .iter_enumerated()
            .map(|(l, d)| {
                let t = self.norm(d.ty, env);
                let t = self.ty(t);
                match names.get(&l.as_usize()) {
                    Some(n) => obj(&[("t", t), ("n", s(n))]),
                    None => obj(&[("t", t)]),
                }
            })
            .collect();
        let mut blocks = vec![];
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = vec![];
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(pr) => {
                        if let Rvalue::Ref(_, BorrowKind::Fake(_), _) = pr.1 {
                            continue;
                        }
                        let p = self.place(&pr.0);
                        let r = self.rvalue(&pr.1, env);
                        st.push(arr([s("="), p, r, self.loc(x.source_info.span)]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(arr([s("sd"), p, variant_index.as_usize().to_string()]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(arr([s("dead"), l.as_usize().to_string()]));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(arr([s("live"), l.as_usize().to_string()]));
                    }
                    StatementKind::Intrinsic(i) => {
                        st.push(arr([s("intr"), s(&format!("{:?}", i))]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let loc = self.loc(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => arr([s("goto"), target.as_usize().to_string()]),
                TerminatorKind::FalseEdge { real_target, .. } => {
                    arr([s("goto"), real_target.as_usize().to_string()])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    arr([s("goto"), real_target.as_usize().to_string()])
                }
                TerminatorKind::SwitchInt { discr, targets } => {
                    let d = self.operand(discr, env);
                    let dt = discr.ty(&b.local_decls, tcx);
                    let dt = self.ty(dt);
                    let v: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| arr([s(&v.to_string()), t.as_usize().to_string()]))
                        .collect();
                    arr([s("switch"), d, arr(v), targets.otherwise().as_usize().to_string(), dt, loc])
                }
                TerminatorKind::Return => arr([s("ret")]),
                TerminatorKind::Unreachable => arr([s("unreach")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => arr([s("unwind")]),
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, tcx).ty;
                    let pt = self.ty(pt);
                    let p = self.place(place);
                    arr([s("drop"), p, target.as_usize().to_string(), pt, loc])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let f = self.operand(func, env);
                    let a: Vec<J> = args.iter().map(|x| self.operand(&x.node, env)).collect();
                    let dt = destination.ty(&b.local_decls, tcx).ty;
                    let dt = self.norm(dt, env);
                    let dtj = self.ty(dt);
                    let d = self.place(destination);
                    let _ = fn_span;
                    arr([
                        s("call"),
                        f,
                        arr(a),
                        d,
                        target.map(|t| t.as_usize().to_string()).unwrap_or("null".into()),
                        dtj,
                        loc,
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond, env);
                    let m = match &**msg {
                        AssertKind::BoundsCheck { len, index } => {
                            let l = self.operand(len, env);
                            let i = self.operand(index, env);
                            arr([s("bounds"), l, i])
                        }
                        AssertKind::Overflow(op, x, y) => {
                            let x = self.operand(x, env);
                            let y = self.operand(y, env);
                            arr([s("overflow"), s(&format!("{:?}", op)), x, y])
                        }
                        AssertKind::OverflowNeg(x) => {
                            let x = self.operand(x, env);
                            arr([s("overflowneg"), x])
                        }
                        AssertKind::DivisionByZero(x) => {
                            let x = self.operand(x, env);
                            arr([s("divzero"), x])
                        }
                        AssertKind::RemainderByZero(x) => {
                            let x = self.operand(x, env);
                            arr([s("remzero"), x])
                        }
                        other => arr([s("other"), s(&format!("{:?}", other))]),
                    };
                    arr([s("assert"), c, expected.to_string(), m, target.as_usize().to_string(), loc])
                }
                other => arr([s("unsupported"), s(&format!("{:?}", other))]),
            };
            blocks.push(obj(&[
                ("s", arr(st)),
                ("t", tj),
                ("cl", bb.is_cleanup.to_string()),
                ("l", self.loc(t.source_info.span)),
            ]));
        }
        let d = def.to_def_id();
        let generics = tcx.generics_of(d);
        let mut gnames = vec![];
        for i in 0..generics.count() {
            let p = generics.param_at(i, tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                gnames.push(s(p.name.as_str()));
            }
        }
        let parent = tcx.opt_parent(d);
        let mut kv = vec![
            ("p", s(&self.path(d))),
            ("kind", s(&format!("{:?}", tcx.def_kind(d)))),
            ("g", arr(gnames)),
            ("argc", b.arg_count.to_string()),
            ("locals", arr(locals)),
            ("blocks", arr(blocks)),
            ("loc", self.loc(tcx.def_span(d))),
            ("pub", tcx.visibility(d).is_public().to_string()),
        ];
        if tcx.def_kind(d) == DefKind::Closure {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            if let TyKind::Closure(_, args) = t.kind() {
                kv.push(("ck", s(&format!("{:?}", args.as_closure().kind()))));
            }
            let ups: Vec<J> = tcx
                .closure_captures(def)
                .iter()
                .map(|c| s(&format!("{}", c.to_symbol())))
                .collect();
            kv.push(("up", arr(ups)));
        }
        if let Some(p) = parent {
            if let DefKind::Impl { .. } = tcx.def_kind(p) {
                let st = tcx.type_of(p).instantiate_identity().skip_norm_wip();
                let st = self.ty(st);
                kv.push(("self_ty", st));
                if let Some(t) = tcx.impl_opt_trait_ref(p) {
                    let t = t.instantiate_identity().skip_norm_wip();
                    kv.push(("impl_trait", s(&self.path(t.def_id))));
                }
            }
            if let DefKind::Trait = tcx.def_kind(p) {
                kv.push(("in_trait", s(&self.path(p))));
            }
        }
        obj(&kv)
    }

    fn norm(&self, t: Ty<'tcx>, env: ty::TypingEnv<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx
            .try_normalize_erasing_regions(env, ty::Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn adt(&mut self, d: DefId) -> J {
        let tcx = self.tcx;
        let a = tcx.adt_def(d);
        let ga = ty::GenericArgs::identity_for_item(tcx, d);
        let mut vs = vec![];
        for (i, v) in a.variants().iter_enumerated() {
            let discr = if a.is_enum() {
                a.discriminant_for_variant(tcx, i).val.to_string()
            } else {
                "0".into()
            };
            let fields: Vec<J> = v
                .fields
                .iter()
                .map(|f| {
                    let t = if d.is_local() || a.is_enum() {
                        let t = f.ty(tcx, ga).skip_norm_wip();
                        self.ty(t)
                    } else {
                        "null".into()
                    };
                    arr([s(f.name.as_str()), t])
                })
                .collect();
            vs.push(obj(&[("n", s(v.name.as_str())), ("d", s(&discr)), ("f", arr(fields))]));
        }
        let g = tcx.generics_of(d);
        let mut gn = vec![];
        for i in 0..g.count() {
            let p = g.param_at(i, tcx);
            if !matches!(p.kind, ty::GenericParamDefKind::Lifetime) {
                gn.push(s(p.name.as_str()));
            }
        }
        obj(&[
            ("enum", a.is_enum().to_string()),
            ("local", d.is_local().to_string()),
            ("g", arr(gn)),
            ("v", arr(vs)),
            ("drop", match tcx.adt_destructor(d) { Some(x) => s(&self.path(x.did)), None => "null".into() }),
        ])
    }
}

struct Cb;

impl Callbacks for Cb {
    fn after_expansion<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let out = match std::env::var("MIRDUMP_OUT") {
            Ok(o) => o,
            Err(_) => return Compilation::Continue,
        };
        let keys: Vec<LocalDefId> = tcx.mir_keys(()).iter().copied().collect();
        let mut bodies = vec![];
        for k in keys {
            let kind = tcx.def_kind(k);
            match kind {
                DefKind::Fn | DefKind::AssocFn | DefKind::Closure => {}
                _ => continue,
            }
            let b = tcx.mir_built(k).borrow().clone();
            bodies.push((k, b));
        }
        if tcx.dcx().has_errors().is_some() {
            return Compilation::Continue;
        }
        let mut cx = Cx { tcx, adts: HashSet::new(), adt_done: HashMap::new() };
        let bj: Vec<J> = bodies.iter().map(|(k, b)| cx.body(*k, b)).collect();
        // Trait implementations in this crate.
        let mut impls = vec![];
        for (t, is) in tcx.all_local_trait_impls(()).iter() {
            for i in is {
                let d = i.to_def_id();
                let tr = tcx.impl_opt_trait_ref(d).unwrap().instantiate_identity().skip_norm_wip();
                let aj = cx.args(tr.args);
                let mut items = vec![];
                for it in tcx.associated_items(d).in_definition_order() {
                    let tp = match it.trait_item_def_id() {
                        Some(t) => cx.path(t),
                        None => String::new(),
                    };
                    if let ty::AssocKind::Type { .. } = it.kind {
                        let t = tcx.type_of(it.def_id).instantiate_identity().skip_norm_wip();
                        let t = cx.ty(t);
                        items.push(arr([s(&tp), s(&cx.path(it.def_id)), t]));
                    } else {
                        items.push(arr([s(&tp), s(&cx.path(it.def_id)), "null".into()]));
                    }
                }
                impls.push(obj(&[
                    ("trait", s(&cx.path(*t))),
                    ("args", aj),
                    ("items", arr(items)),
                    ("loc", cx.loc(tcx.def_span(d))),
                ]));
            }
        }
        // ADTs, transitively.
        loop {
            let next: Vec<DefId> =
                cx.adts.iter().copied().filter(|d| !cx.adt_done.contains_key(d)).collect();
            if next.is_empty() {
                break;
            }
            for d in next {
                let p = cx.path(d);
                let j = cx.adt(d);
                cx.adt_done.insert(d, (p, j));
            }
        }
        let adts: BTreeMap<String, J> = cx.adt_done.values().cloned().collect();
        let adts: Vec<String> = adts.iter().map(|(k, v)| format!("{}:{}", s(k), v)).collect();
        let name = tcx.crate_name(rustc_span::def_id::LOCAL_CRATE).to_string();
        let j = obj(&[
            ("crate", s(&name)),
            ("bodies", arr(bj)),
            ("impls", arr(impls)),
            ("adts", format!("{{{}}}", adts.join(","))),
        ]);
        let path = format!("{}/{}.json", out, name);
        std::fs::write(&path, j).unwrap_or_else(|e| panic!("mirdump: cannot write {}: {}", path, e));
        Compilation::Continue
    }
}

fn run() {
    let mut args: Vec<String> = std::env::args().collect();
    // As a wrapper, we're given the path of the real compiler first.
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc-shim")) {
        args.remove(1);
    }
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}

fn main() -> std::process::ExitCode {
    rustc_driver::catch_with_exit_code(run)
}
