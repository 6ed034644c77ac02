// mirdump: a rustc driver that dumps the type-checked, monomorphised MIR of one
// crate (named by MIRDUMP_CRATE) as JSON to MIRDUMP_OUT.
//
// Used as RUSTC_WORKSPACE_WRAPPER under `cargo +nightly check`, so it sees the
// crate exactly as the real build configures it.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_const_eval;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;
extern crate rustc_trait_selection;

use rustc_driver::Compilation;
use rustc_hir::def::{CtorKind, DefKind};
use rustc_hir::def_id::{DefId, LOCAL_CRATE};
use rustc_middle::mir::interpret::{AllocId, GlobalAlloc, Scalar};
use rustc_middle::mir::{self, *};
use rustc_middle::ty::print::with_no_trimmed_paths;
use rustc_middle::ty::{
    self, EarlyBinder, GenericArgs, Instance, InstanceKind, Ty, TyCtxt, TypeVisitableExt,
    TypingEnv, Unnormalized,
};
use std::collections::HashMap;
use std::fmt::Write as _;

// ------------------------------------------------------------------ JSON
#[derive(Clone)]
enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(&'static str, J)>),
}
fn s(x: impl Into<String>) -> J {
    J::Str(x.into())
}
fn n(x: impl TryInto<i128>) -> J {
    J::Int(x.try_into().ok().unwrap_or(0))
}
impl J {
    fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => {
                let _ = write!(o, "{}", i);
            }
            J::Str(st) => {
                o.push('"');
                for c in st.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 || (c as u32) == 0x7f => {
                            let _ = write!(o, "\\u{:04x}", c as u32);
                        }
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(v) => {
                o.push('{');
                for (i, (k, x)) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    let _ = write!(o, "\"{}\":", k);
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}

// ------------------------------------------------------------------ dumper
struct Cx<'tcx> {
    tcx: TyCtxt<'tcx>,
    env: TypingEnv<'tcx>,
    types: Vec<J>,
    type_ids: HashMap<(Ty<'tcx>, bool), usize>,
    insts: HashMap<(Instance<'tcx>, TypingEnv<'tcx>), usize>,
    queue: Vec<(usize, Instance<'tcx>, TypingEnv<'tcx>)>,
    fns: Vec<J>,
}

// Foreign functions whose bodies are interpreted rather than modelled: small,
// safe, control-flow-only combinators.
const INLINE_PREFIXES: &[&str] = &[
    "std::option::",
    "std::result::",
    "core::option::",
    "core::result::",
    "std::ops::",
    "core::ops::",
    "std::convert::",
    "core::convert::",
    "std::cmp::",
    "core::cmp::",
    "core::bool::",
    "std::bool::",
    "std::iter::IntoIterator",
    "<std::option::",
    "<std::result::",
    "<std::ops::",
    "<std::convert::",
    "<core::",
];

impl<'tcx> Cx<'tcx> {
    fn path(&self, d: DefId) -> String {
        with_no_trimmed_paths!(self.tcx.def_path_str(d))
    }

    fn ty(&mut self, t: Ty<'tcx>) -> J {
        n(self.ty_id(t) as u64)
    }

    fn norm(&self, t: Ty<'tcx>) -> Ty<'tcx> {
        let t = self.tcx.erase_and_anonymize_regions(t);
        self.tcx
            .try_normalize_erasing_regions(self.env, Unnormalized::new_wip(t))
            .unwrap_or(t)
    }

    fn ty_id(&mut self, t: Ty<'tcx>) -> usize {
        let t = self.norm(t);
        let key = (t, false);
        if let Some(i) = self.type_ids.get(&key) {
            return *i;
        }
        let id = self.types.len();
        self.types.push(J::Null);
        self.type_ids.insert(key, id);
        let disp = with_no_trimmed_paths!(t.to_string());
        let mut o: Vec<(&'static str, J)> = vec![("s", s(disp))];
        match *t.kind() {
            ty::Bool => o.push(("k", s("bool"))),
            ty::Char => o.push(("k", s("char"))),
            ty::Int(_) | ty::Uint(_) => {
                o.push(("k", s("int")));
                let bits = match *t.kind() {
                    ty::Int(i) => i.bit_width().unwrap_or(64),
                    ty::Uint(i) => i.bit_width().unwrap_or(64),
                    _ => 0,
                };
                o.push(("bits", n(bits)));
                o.push(("signed", J::Bool(matches!(t.kind(), ty::Int(_)))));
            }
            ty::Float(_) => o.push(("k", s("float"))),
            ty::Str => o.push(("k", s("str"))),
            ty::Never => o.push(("k", s("never"))),
            ty::Slice(e) => {
                o.push(("k", s("slice")));
                let e = self.ty(e);
                o.push(("elem", e));
            }
            ty::Array(e, l) => {
                o.push(("k", s("array")));
                let e = self.ty(e);
                o.push(("elem", e));
                o.push((
                    "len",
                    match l.try_to_target_usize(self.tcx) {
                        Some(x) => n(x),
                        None => J::Null,
                    },
                ));
            }
            ty::Ref(_, e, m) => {
                o.push(("k", s("ref")));
                let e = self.ty(e);
                o.push(("elem", e));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::RawPtr(e, m) => {
                o.push(("k", s("ptr")));
                let e = self.ty(e);
                o.push(("elem", e));
                o.push(("mut", J::Bool(m.is_mut())));
            }
            ty::Tuple(ts) => {
                o.push(("k", s("tuple")));
                let v = ts.iter().map(|x| self.ty(x)).collect();
                o.push(("elems", J::Arr(v)));
            }
            ty::Adt(def, args) => {
                o.push(("k", s("adt")));
                let p = self.path(def.did());
                let local = def.did().is_local();
                o.push(("path", s(p.clone())));
                o.push(("local", J::Bool(local)));
                o.push((
                    "kind",
                    s(if def.is_enum() {
                        "enum"
                    } else if def.is_union() {
                        "union"
                    } else {
                        "struct"
                    }),
                ));
                let targs: Vec<J> = args.types().map(|x| self.ty(x)).collect();
                o.push(("args", J::Arr(targs)));
                let show = local
                    || def.is_enum()
                    || p.starts_with("std::ops::")
                    || p.starts_with("core::ops::");
                if show && !def.is_union() {
                    let mut vs = Vec::new();
                    let discrs: Vec<i128> = if def.is_enum() {
                        def.discriminants(self.tcx).map(|(_, d)| d.val as i128).collect()
                    } else {
                        vec![0]
                    };
                    for (i, v) in def.variants().iter().enumerate() {
                        let mut fs = Vec::new();
                        for f in v.fields.iter() {
                            let ft = f.ty(self.tcx, args).skip_norm_wip();
                            let tj = self.ty(ft);
                            fs.push(J::Obj(vec![
                                ("name", s(f.name.to_string())),
                                ("ty", tj),
                                ("pub", J::Bool(f.vis.is_public())),
                            ]));
                        }
                        vs.push(J::Obj(vec![
                            ("name", s(v.name.to_string())),
                            ("discr", n(discrs[i])),
                            ("fields", J::Arr(fs)),
                        ]));
                    }
                    o.push(("variants", J::Arr(vs)));
                }
                if !t.has_param() || true {
                    if let Ok(l) = self.tcx.layout_of(self.env.as_query_input(t)) {
                        if l.is_sized() {
                            o.push(("size", n(l.size.bytes())));
                            o.push(("align", n(l.align.abi.bytes())));
                            if local && def.is_struct() {
                                let offs: Vec<J> = (0..l.fields.count())
                                    .map(|i| n(l.fields.offset(i).bytes()))
                                    .collect();
                                o.push(("offsets", J::Arr(offs)));
                            }
                        }
                    }
                }
            }
            ty::Closure(d, args) => {
                o.push(("k", s("closure")));
                o.push(("path", s(self.path(d))));
                let ups: Vec<J> =
                    args.as_closure().upvar_tys().iter().map(|x| self.ty(x)).collect();
                o.push(("upvars", J::Arr(ups)));
                let kind = args.as_closure().kind_ty().to_opt_closure_kind();
                o.push(("ckind", s(format!("{:?}", kind))));
                let inst = Instance::new_raw(d, args);
                let id = self.inst(inst);
                o.push(("inst", n(id as u64)));
            }
            ty::FnDef(d, args) => {
                o.push(("k", s("fndef")));
                let r = self.resolve(d, args.no_bound_vars().unwrap());
                o.push(("callee", r));
            }
            ty::FnPtr(..) => o.push(("k", s("fnptr"))),
            ty::Dynamic(preds, _) => {
                o.push(("k", s("dyn")));
                if let Some(d) = preds.principal_def_id() {
                    o.push(("trait", s(self.path(d))));
                }
            }
            ty::Param(_) => o.push(("k", s("param"))),
            ty::Alias(..) => o.push(("k", s("alias"))),
            _ => o.push(("k", s("other"))),
        }
        self.types[id] = J::Obj(o);
        id
    }

    fn inst(&mut self, i: Instance<'tcx>) -> usize {
        let key = (i, self.env);
        if let Some(x) = self.insts.get(&key) {
            return *x;
        }
        let id = self.fns.len();
        self.fns.push(J::Null);
        self.insts.insert(key, id);
        self.queue.push((id, i, self.env));
        id
    }

    // What a call to `d<args>` reaches.
    fn resolve(&mut self, d: DefId, args: ty::GenericArgsRef<'tcx>) -> J {
        let tcx = self.tcx;
        let declared = self.path(d);
        let args_e = tcx.erase_and_anonymize_regions(args);
        let args_e = tcx
            .try_normalize_erasing_regions(self.env, Unnormalized::new_wip(args_e))
            .unwrap_or(args_e);
        let targs: Vec<J> = args_e.types().map(|x| self.ty(x)).collect();
        let mut o = vec![("decl", s(declared)), ("targs", J::Arr(targs))];
        if let DefKind::Ctor(of, CtorKind::Fn) = tcx.def_kind(d) {
            let _ = of;
            o.push(("ctor", J::Bool(true)));
        }
        match Instance::try_resolve(tcx, self.env, d, args_e) {
            Ok(Some(i)) => {
                match i.def {
                    InstanceKind::Virtual(..) => o.push(("virtual", J::Bool(true))),
                    InstanceKind::Intrinsic(..) => o.push(("intrinsic", J::Bool(true))),
                    _ => {
                        let id = self.inst(i);
                        o.push(("inst", n(id as u64)));
                    }
                }
            }
            _ => o.push(("unresolved", J::Bool(true))),
        }
        J::Obj(o)
    }

    fn span(&self, sp: rustc_span::Span) -> J {
        let sp = sp.source_callsite();
        let sm = self.tcx.sess.source_map();
        let lo = sm.lookup_char_pos(sp.lo());
        let f = format!("{}", lo.file.name.prefer_local_unconditionally());
        s(format!("{}:{}", f, lo.line))
    }

    fn alloc_bytes(&self, id: AllocId, off: u64, len: u64) -> Option<Vec<u8>> {
        match self.tcx.try_get_global_alloc(id)? {
            GlobalAlloc::Memory(m) => {
                let m = m.inner();
                let (a, b) = (off as usize, (off + len) as usize);
                if b > m.len() {
                    return None;
                }
                Some(m.inspect_with_uninit_and_ptr_outside_interpreter(a..b).to_vec())
            }
            _ => None,
        }
    }

    fn bytes_json(&self, b: &[u8]) -> J {
        J::Arr(b.iter().map(|x| n(*x)).collect())
    }

    fn cval(&mut self, v: ConstValue, t: Ty<'tcx>, depth: u32) -> J {
        let t = self.norm(t);
        let tcx = self.tcx;
        let tj = self.ty(t);
        let mut o: Vec<(&'static str, J)> = vec![("ty", tj)];
        if depth > 6 {
            o.push(("v", s("deep")));
            return J::Obj(o);
        }
        match *t.kind() {
            ty::Bool | ty::Char | ty::Int(_) | ty::Uint(_) => {
                let bits = match v {
                    ConstValue::Indirect { alloc_id, offset } => {
                        let sz = tcx
                            .layout_of(self.env.as_query_input(t))
                            .map(|l| l.size.bytes())
                            .unwrap_or(0);
                        self.alloc_bytes(alloc_id, offset.bytes(), sz).map(|b| {
                            let mut x: u128 = 0;
                            for (i, y) in b.iter().enumerate() {
                                x |= (*y as u128) << (8 * i);
                            }
                            x
                        })
                    }
                    _ => v.try_to_bits_for_ty(tcx, self.env, t),
                };
                match bits {
                    Some(b) => {
                        let mut x = b as i128;
                        if let ty::Int(it) = *t.kind() {
                            let w = it.bit_width().unwrap_or(64);
                            if w < 128 && (b >> (w - 1)) & 1 == 1 {
                                x = (b as i128) - (1i128 << w);
                            }
                        }
                        o.push(("int", J::Int(x)));
                    }
                    None => o.push(("v", s("unknown"))),
                }
                return J::Obj(o);
            }
            ty::FnDef(..) => {
                o.push(("zst", J::Bool(true)));
                return J::Obj(o);
            }
            ty::Ref(_, inner, _) | ty::RawPtr(inner, _) => {
                let inner = self.norm(inner);
                match *inner.kind() {
                    ty::Str => {
                        if let Some(b) = v.try_get_slice_bytes_for_diagnostics(tcx) {
                            let b = b.to_vec();
                            o.push(("str", s(String::from_utf8_lossy(&b).to_string())));
                            o.push(("bytes", self.bytes_json(&b)));
                        }
                        return J::Obj(o);
                    }
                    ty::Slice(e) => {
                        match v {
                            ConstValue::Slice { alloc_id, meta } => {
                                let sz = tcx
                                    .layout_of(self.env.as_query_input(e))
                                    .map(|l| l.size.bytes())
                                    .unwrap_or(0);
                                if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                                    if let Some(b) = self.alloc_bytes(alloc_id, 0, meta) {
                                        o.push(("bytes", self.bytes_json(&b)));
                                    }
                                } else if meta <= 64 {
                                    let mut vs = vec![];
                                    for i in 0..meta {
                                        vs.push(self.cval(
                                            ConstValue::Indirect {
                                                alloc_id,
                                                offset: rustc_abi::Size::from_bytes(i * sz),
                                            },
                                            e,
                                            depth + 1,
                                        ));
                                    }
                                    o.push(("slice", J::Arr(vs)));
                                }
                            }
                            ConstValue::Indirect { alloc_id, offset } => {
                                // a fat pointer stored in memory: follow provenance
                                if let Some(GlobalAlloc::Memory(m)) = tcx.try_get_global_alloc(alloc_id) {
                                    let m = m.inner();
                                    if let Some(p) = m.provenance().get_ptr(offset) {
                                        if let (Some(pb), Some(lb)) = (
                                            self.alloc_bytes(alloc_id, offset.bytes(), 8),
                                            self.alloc_bytes(alloc_id, offset.bytes() + 8, 8),
                                        ) {
                                            let off = u64::from_le_bytes(pb.try_into().unwrap());
                                            let l = u64::from_le_bytes(lb.try_into().unwrap());
                                            if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                                                if let Some(b) = self.alloc_bytes(p.alloc_id(), off, l) {
                                                    o.push(("bytes", self.bytes_json(&b)));
                                                }
                                            }
                                        }
                                    }
                                }
                            }
                            _ => {}
                        }
                        return J::Obj(o);
                    }
                    _ => {}
                }
                // thin pointer
                let ptr = match v {
                    ConstValue::Scalar(Scalar::Ptr(p, _)) => {
                        let (prov, off) = p.prov_and_relative_offset();
                        Some((prov.alloc_id(), off))
                    }
                    // a pointer stored in memory: follow provenance
                    ConstValue::Indirect { alloc_id, offset } => match tcx.try_get_global_alloc(alloc_id) {
                        Some(GlobalAlloc::Memory(m)) => {
                            m.inner().provenance().get_ptr(offset).and_then(|p| {
                                let b = self.alloc_bytes(alloc_id, offset.bytes(), 8)?;
                                let off = u64::from_le_bytes(b.try_into().ok()?);
                                Some((p.alloc_id(), rustc_abi::Size::from_bytes(off)))
                            })
                        }
                        _ => None,
                    },
                    _ => None,
                };
                if let Some((aid, off)) = ptr {
                    match tcx.try_get_global_alloc(aid) {
                        Some(GlobalAlloc::Static(d)) => {
                            o.push(("static", s(self.path(d))));
                        }
                        Some(GlobalAlloc::Memory(_)) => {
                            let sized = tcx
                                .layout_of(self.env.as_query_input(inner))
                                .map(|l| l.is_sized())
                                .unwrap_or(false);
                            if sized {
                                let r = self.cval(
                                    ConstValue::Indirect { alloc_id: aid, offset: off },
                                    inner,
                                    depth + 1,
                                );
                                o.push(("ref", r));
                            }
                        }
                        _ => o.push(("v", s("ptr"))),
                    }
                }
                return J::Obj(o);
            }
            ty::Array(e, l) => {
                if let (ConstValue::Indirect { alloc_id, offset }, Some(l)) =
                    (v, l.try_to_target_usize(tcx))
                {
                    if matches!(e.kind(), ty::Uint(ty::UintTy::U8)) {
                        if let Some(b) = self.alloc_bytes(alloc_id, offset.bytes(), l) {
                            o.push(("bytes", self.bytes_json(&b)));
                            return J::Obj(o);
                        }
                    }
                }
            }
            _ => {}
        }
        if matches!(v, ConstValue::ZeroSized) {
            o.push(("zst", J::Bool(true)));
        }
        let can = matches!(t.kind(), ty::Adt(..) | ty::Tuple(..) | ty::Array(..)) && !t.has_param();
        let layout_ok = tcx.layout_of(self.env.as_query_input(t)).is_ok();
        let is_union = matches!(t.kind(), ty::Adt(d, _) if d.is_union());
        if can && layout_ok && !is_union {
            let arr_big = matches!(t.kind(), ty::Array(_, l) if l.try_to_target_usize(tcx).unwrap_or(1000) > 64);
            if !arr_big {
                if let Some(d) = tcx.try_destructure_mir_constant_for_user_output(v, t) {
                    if let Some(vi) = d.variant {
                        o.push(("variant", n(vi.as_u32())));
                    }
                    let fs: Vec<J> =
                        d.fields.iter().map(|(cv, ft)| self.cval(*cv, *ft, depth + 1)).collect();
                    o.push(("fields", J::Arr(fs)));
                }
            }
        }
        J::Obj(o)
    }

    fn constant(&mut self, c: &ConstOperand<'tcx>) -> J {
        let t = c.const_.ty();
        let src = match c.const_ {
            mir::Const::Unevaluated(u, _) if u.promoted.is_none() => Some(self.path(u.def)),
            _ => None,
        };
        let mut j = match c.const_.eval(self.tcx, self.env, c.span) {
            Ok(v) => self.cval(v, t, 0),
            Err(_) => {
                let tj = self.ty(t);
                J::Obj(vec![("ty", tj), ("v", s("uneval"))])
            }
        };
        if let (J::Obj(o), Some(p)) = (&mut j, src) {
            o.push(("name", s(p)));
        }
        j
    }

    fn place(&mut self, p: &Place<'tcx>) -> J {
        let mut v = vec![n(p.local.as_u32())];
        for e in p.projection.iter() {
            v.push(match e {
                ProjectionElem::Deref => s("*"),
                ProjectionElem::Field(f, t) => {
                    let t = self.ty(t);
                    J::Arr(vec![s("f"), n(f.as_u32()), t])
                }
                ProjectionElem::Index(l) => J::Arr(vec![s("i"), n(l.as_u32())]),
                ProjectionElem::ConstantIndex { offset, min_length, from_end } => {
                    J::Arr(vec![s("c"), n(offset), n(min_length), J::Bool(from_end)])
                }
                ProjectionElem::Subslice { from, to, from_end } => {
                    J::Arr(vec![s("s"), n(from), n(to), J::Bool(from_end)])
                }
                ProjectionElem::Downcast(_, vi) => J::Arr(vec![s("d"), n(vi.as_u32())]),
                _ => s("?"),
            });
        }
        J::Arr(v)
    }

    fn operand(&mut self, o: &Operand<'tcx>) -> J {
        match o {
            Operand::Copy(p) => {
                let p = self.place(p);
                J::Arr(vec![s("copy"), p])
            }
            Operand::Move(p) => {
                let p = self.place(p);
                J::Arr(vec![s("move"), p])
            }
            Operand::Constant(c) => {
                let c = self.constant(c);
                J::Arr(vec![s("const"), c])
            }
            Operand::RuntimeChecks(_) => J::Arr(vec![s("rtcheck")]),
        }
    }

    fn rvalue(&mut self, r: &Rvalue<'tcx>, b: &Body<'tcx>) -> J {
        match r {
            Rvalue::Use(o, _) => {
                let o = self.operand(o);
                J::Arr(vec![s("use"), o])
            }
            Rvalue::Repeat(o, c) => {
                let o = self.operand(o);
                let l = c.try_to_target_usize(self.tcx);
                J::Arr(vec![s("repeat"), o, l.map(|x| n(x)).unwrap_or(J::Null)])
            }
            Rvalue::Ref(_, bk, p) => {
                let m = matches!(bk, BorrowKind::Mut { .. });
                let p = self.place(p);
                J::Arr(vec![s("ref"), J::Bool(m), p])
            }
            Rvalue::RawPtr(_, p) => {
                let p = self.place(p);
                J::Arr(vec![s("rawptr"), p])
            }
            Rvalue::Cast(k, o, t) => {
                let from = o.ty(&b.local_decls, self.tcx);
                let from = self.ty(from);
                let o = self.operand(o);
                let t = self.ty(*t);
                J::Arr(vec![s("cast"), s(format!("{:?}", k)), o, t, from])
            }
            Rvalue::BinaryOp(op, ops) => {
                let t = ops.0.ty(&b.local_decls, self.tcx);
                let t = self.ty(t);
                let x = self.operand(&ops.0);
                let y = self.operand(&ops.1);
                J::Arr(vec![s("bin"), s(format!("{:?}", op)), x, y, t])
            }
            Rvalue::UnaryOp(op, o) => {
                let t = o.ty(&b.local_decls, self.tcx);
                let t = self.ty(t);
                let o = self.operand(o);
                J::Arr(vec![s("un"), s(format!("{:?}", op)), o, t])
            }
            Rvalue::Discriminant(p) => {
                let t = p.ty(&b.local_decls, self.tcx).ty;
                let t = self.ty(t);
                let p = self.place(p);
                J::Arr(vec![s("discr"), p, t])
            }
            Rvalue::Aggregate(k, ops) => {
                let os: Vec<J> = ops.iter().map(|o| self.operand(o)).collect();
                let t = r.ty(&b.local_decls, self.tcx);
                let t = self.ty(t);
                let (kn, vi) = match **k {
                    AggregateKind::Array(_) => ("array", 0),
                    AggregateKind::Tuple => ("tuple", 0),
                    AggregateKind::Adt(_, v, _, _, _) => ("adt", v.as_u32()),
                    AggregateKind::Closure(..) => ("closure", 0),
                    AggregateKind::RawPtr(..) => ("rawptr", 0),
                    _ => ("other", 0),
                };
                J::Arr(vec![s("agg"), s(kn), t, n(vi), J::Arr(os)])
            }
            Rvalue::CopyForDeref(p) => {
                let p = self.place(p);
                J::Arr(vec![s("use"), J::Arr(vec![s("copy"), p])])
            }
            Rvalue::Reborrow(_, m, p) => {
                let p = self.place(p);
                J::Arr(vec![s("ref"), J::Bool(m.is_mut()), J::Arr(match p {
                    J::Arr(mut v) => { v.push(s("*")); v }
                    _ => vec![],
                })])
            }
            _ => J::Arr(vec![s("other"), s(format!("{:?}", r))]),
        }
    }

    fn body(&mut self, b: &Body<'tcx>) -> J {
        let locals: Vec<J> = b
            .local_decls
            .iter()
            .map(|l| self.ty(l.ty))
            .collect();
        let mut names: Vec<J> = Vec::new();
        for v in &b.var_debug_info {
            if let VarDebugInfoContents::Place(p) = v.value {
                let pl = self.place(&p);
                names.push(J::Arr(vec![s(v.name.to_string()), pl]));
            }
        }
        let mut blocks = Vec::new();
        for (_, bb) in b.basic_blocks.iter_enumerated() {
            let mut st = Vec::new();
            for x in &bb.statements {
                match &x.kind {
                    StatementKind::Assign(bx) => {
                        let p = self.place(&bx.0);
                        let r = self.rvalue(&bx.1, b);
                        let sp = self.span(x.source_info.span);
                        st.push(J::Arr(vec![s("="), p, r, sp]));
                    }
                    StatementKind::SetDiscriminant { place, variant_index } => {
                        let p = self.place(place);
                        st.push(J::Arr(vec![s("setdiscr"), p, n(variant_index.as_u32())]));
                    }
                    StatementKind::StorageDead(l) => {
                        st.push(J::Arr(vec![s("dead"), n(l.as_u32())]));
                    }
                    StatementKind::StorageLive(l) => {
                        st.push(J::Arr(vec![s("live"), n(l.as_u32())]));
                    }
                    _ => {}
                }
            }
            let t = bb.terminator();
            let sp = self.span(t.source_info.span);
            let tj = match &t.kind {
                TerminatorKind::Goto { target, .. } => J::Arr(vec![s("goto"), n(target.as_u32())]),
                TerminatorKind::SwitchInt { discr, targets } => {
                    let ty = discr.ty(&b.local_decls, self.tcx);
                    let signed_w = match *self.norm(ty).kind() {
                        ty::Int(i) => Some(i.bit_width().unwrap_or(64)),
                        _ => None,
                    };
                    let tyj = self.ty(ty);
                    let d = self.operand(discr);
                    let vals: Vec<J> = targets
                        .iter()
                        .map(|(v, t)| {
                            let mut x = v as i128;
                            if let Some(w) = signed_w {
                                if w < 128 && (v >> (w - 1)) & 1 == 1 {
                                    x = v as i128 - (1i128 << w);
                                }
                            }
                            J::Arr(vec![J::Int(x), n(t.as_u32())])
                        })
                        .collect();
                    J::Arr(vec![
                        s("switch"),
                        d,
                        tyj,
                        J::Arr(vals),
                        n(targets.otherwise().as_u32()),
                    ])
                }
                TerminatorKind::Return => J::Arr(vec![s("return")]),
                TerminatorKind::Unreachable => J::Arr(vec![s("unreachable")]),
                TerminatorKind::UnwindResume | TerminatorKind::UnwindTerminate(_) => {
                    J::Arr(vec![s("unwind")])
                }
                TerminatorKind::Drop { place, target, .. } => {
                    let pt = place.ty(&b.local_decls, self.tcx).ty;
                    let pt = self.ty(pt);
                    let p = self.place(place);
                    J::Arr(vec![s("drop"), p, n(target.as_u32()), pt])
                }
                TerminatorKind::Call { func, args, destination, target, fn_span, .. } => {
                    let ft = func.ty(&b.local_decls, self.tcx);
                    let ft = self.norm(ft);
                    let callee = match *ft.kind() {
                        ty::FnDef(d, a) => self.resolve(d, a.no_bound_vars().unwrap()),
                        _ => {
                            let f = self.operand(func);
                            J::Obj(vec![("value", f)])
                        }
                    };
                    let mut ats = vec![];
                    let mut avs = vec![];
                    for a in args.iter() {
                        let t = a.node.ty(&b.local_decls, self.tcx);
                        ats.push(self.ty(t));
                        avs.push(self.operand(&a.node));
                    }
                    let rt = destination.ty(&b.local_decls, self.tcx).ty;
                    let rt = self.ty(rt);
                    let dp = self.place(destination);
                    let fsp = self.span(*fn_span);
                    J::Obj(vec![
                        ("call", callee),
                        ("args", J::Arr(avs)),
                        ("tys", J::Arr(ats)),
                        ("dest", dp),
                        ("rty", rt),
                        ("to", target.map(|x| n(x.as_u32())).unwrap_or(J::Null)),
                        ("span", fsp),
                    ])
                }
                TerminatorKind::Assert { cond, expected, msg, target, .. } => {
                    let c = self.operand(cond);
                    let kind = match &**msg {
                        AssertKind::BoundsCheck { .. } => "bounds".to_string(),
                        AssertKind::Overflow(op, ..) => format!("overflow:{:?}", op),
                        AssertKind::OverflowNeg(_) => "overflow:Neg".to_string(),
                        AssertKind::DivisionByZero(_) => "divzero".to_string(),
                        AssertKind::RemainderByZero(_) => "remzero".to_string(),
                        _ => "other".to_string(),
                    };
                    J::Arr(vec![
                        s("assert"),
                        c,
                        J::Bool(*expected),
                        s(kind),
                        n(target.as_u32()),
                    ])
                }
                TerminatorKind::FalseEdge { real_target, .. } => {
                    J::Arr(vec![s("goto"), n(real_target.as_u32())])
                }
                TerminatorKind::FalseUnwind { real_target, .. } => {
                    J::Arr(vec![s("goto"), n(real_target.as_u32())])
                }
                k => J::Arr(vec![s("otherterm"), s(format!("{:?}", k))]),
            };
            blocks.push(J::Obj(vec![
                ("st", J::Arr(st)),
                ("t", tj),
                ("sp", sp),
                ("cleanup", J::Bool(bb.is_cleanup)),
            ]));
        }
        J::Obj(vec![
            ("locals", J::Arr(locals)),
            ("argc", n(b.arg_count as u64)),
            ("spread", b.spread_arg.map(|x| n(x.as_u32())).unwrap_or(J::Null)),
            ("names", J::Arr(names)),
            ("blocks", J::Arr(blocks)),
        ])
    }

    fn want_body(&self, i: Instance<'tcx>) -> bool {
        let tcx = self.tcx;
        match i.def {
            InstanceKind::Item(d) => {
                if let DefKind::Ctor(..) = tcx.def_kind(d) {
                    return false;
                }
                if d.is_local() {
                    return tcx.is_mir_available(d);
                }
                let p = self.path(d);
                INLINE_PREFIXES.iter().any(|x| p.starts_with(x)) && tcx.is_mir_available(d)
            }
            InstanceKind::Shim(sh) => match sh {
                ty::ShimKind::ClosureOnce { closure, .. } => closure.is_local(),
                ty::ShimKind::FnPtr(..) => true,
                _ => false,
            },
            _ => false,
        }
    }

    fn dump_fn(&mut self, id: usize, i: Instance<'tcx>) {
        let tcx = self.tcx;
        let d = i.def_id();
        let mut o: Vec<(&'static str, J)> = vec![
            ("path", s(self.path(d))),
            ("local", J::Bool(d.is_local())),
            ("kind", s(format!("{:?}", tcx.def_kind(d)))),
            ("inst", s(with_no_trimmed_paths!(format!("{}", i)))),
            ("shim", J::Bool(!matches!(i.def, InstanceKind::Item(_)))),
        ];
        o.push(("span", self.span(tcx.def_span(d))));
        let targs: Vec<J> = i.args.types().map(|x| self.ty(x)).collect();
        o.push(("targs", J::Arr(targs)));
        if let DefKind::Ctor(of, _) = tcx.def_kind(d) {
            // tuple struct / variant constructor used as a function
            let _ = of;
            let sig = tcx.fn_sig(d).instantiate(tcx, i.args).skip_norm_wip().skip_binder();
            let rt = self.ty(sig.output());
            o.push(("ctor_ty", rt));
            let adt = sig.output().ty_adt_def();
            if let Some(adt) = adt {
                let vi = if adt.is_enum() {
                    adt.variant_index_with_ctor_id(d).as_u32()
                } else {
                    0
                };
                o.push(("ctor_variant", n(vi)));
            }
        }
        if let Some(imp) = tcx.trait_impl_of_assoc(d) {
            let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
            o.push(("trait", s(self.path(tr.def_id))));
            let st = self.ty(tr.self_ty());
            o.push(("self_ty", st));
        } else if let Some(imp) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let st = self.ty(st);
            o.push(("self_ty", st));
        }
        if self.want_body(i) {
            let body = tcx.instance_mir(i.def);
            let body: Option<Body<'tcx>> = if i.def.has_polymorphic_mir_body() {
                i.try_instantiate_mir_and_normalize_erasing_regions(
                    tcx,
                    self.env,
                    EarlyBinder::bind(tcx, body.clone()),
                )
                .ok()
            } else {
                Some(body.clone())
            };
            if let Some(b) = body {
                let bj = self.body(&b);
                o.push(("body", bj));
            }
        }
        self.fns[id] = J::Obj(o);
    }
}

/// Unsafe code written in the crate (not what derives expand to).
struct Unsafe<'tcx> {
    tcx: TyCtxt<'tcx>,
    sites: Vec<(String, String)>,
}
impl<'tcx> Unsafe<'tcx> {
    fn add(&mut self, k: &str, sp: rustc_span::Span) {
        if !sp.from_expansion() {
            let w = self.tcx.sess.source_map().span_to_diagnostic_string(sp);
            self.sites.push((k.to_string(), w));
        }
    }
}
impl<'tcx> rustc_hir::intravisit::Visitor<'tcx> for Unsafe<'tcx> {
    type NestedFilter = rustc_middle::hir::nested_filter::All;
    fn maybe_tcx(&mut self) -> TyCtxt<'tcx> {
        self.tcx
    }
    fn visit_block(&mut self, b: &'tcx rustc_hir::Block<'tcx>) {
        if let rustc_hir::BlockCheckMode::UnsafeBlock(rustc_hir::UnsafeSource::UserProvided) = b.rules {
            self.add("unsafe block", b.span);
        }
        rustc_hir::intravisit::walk_block(self, b);
    }
    fn visit_item(&mut self, i: &'tcx rustc_hir::Item<'tcx>) {
        match &i.kind {
            rustc_hir::ItemKind::Impl(im) => {
                if im.of_trait.map_or(false, |t| t.safety == rustc_hir::Safety::Unsafe) {
                    self.add("unsafe impl", i.span);
                }
            }
            rustc_hir::ItemKind::ForeignMod { .. } => self.add("extern block", i.span),
            rustc_hir::ItemKind::Static(m, ..) if *m == rustc_hir::Mutability::Mut => self.add("static mut", i.span),
            rustc_hir::ItemKind::Trait { safety: rustc_hir::Safety::Unsafe, .. } => self.add("unsafe trait", i.span),
            _ => {}
        }
        rustc_hir::intravisit::walk_item(self, i);
    }
}

fn dump<'tcx>(tcx: TyCtxt<'tcx>) {
    let out = std::env::var("MIRDUMP_OUT").expect("MIRDUMP_OUT");
    let ev = tcx.effective_visibilities(());
    let mut cx = Cx {
        tcx,
        env: TypingEnv::fully_monomorphized(),
        types: vec![],
        type_ids: HashMap::new(),
        insts: HashMap::new(),
        queue: vec![],
        fns: vec![],
    };
    let mut roots = vec![];
    let mut items = vec![];
    for ld in tcx.hir_body_owners() {
        let d = ld.to_def_id();
        let kind = tcx.def_kind(d);
        if !matches!(kind, DefKind::Fn | DefKind::AssocFn | DefKind::Closure) {
            items.push(J::Obj(vec![("path", s(cx.path(d))), ("kind", s(format!("{:?}", kind)))]));
            continue;
        }
        if kind == DefKind::Closure {
            // what initialises a static is not called from anywhere
            let top = tcx.typeck_root_def_id(d);
            if matches!(tcx.def_kind(top), DefKind::Static { .. }) {
                let t = tcx.erase_and_anonymize_regions(tcx.type_of(d).instantiate_identity().skip_norm_wip());
                if let ty::Closure(cd, cargs) = *t.kind() {
                    cx.env = TypingEnv::fully_monomorphized();
                    cx.inst(Instance::new_raw(cd, cargs));
                }
            }
            items.push(J::Obj(vec![("path", s(cx.path(d))), ("kind", s("Closure"))]));
            continue;
        }
        let generics = tcx.generics_of(d);
        let has_ty_params = generics.requires_monomorphization(tcx);
        let args = tcx.erase_and_anonymize_regions(GenericArgs::identity_for_item(tcx, d));
        cx.env = if has_ty_params {
            TypingEnv::post_analysis(tcx, d)
        } else {
            TypingEnv::fully_monomorphized()
        };
        let inst = Instance::new_raw(d, args);
        let id = cx.inst(inst);
        let reach = ev.is_reachable(ld);
        let unsafe_ = tcx.fn_sig(d).skip_binder().safety() != rustc_hir::Safety::Safe;
        let mut o = vec![
            ("inst", n(id as u64)),
            ("path", s(cx.path(d))),
            ("public", J::Bool(reach)),
            ("generic", J::Bool(has_ty_params)),
            ("unsafe", J::Bool(unsafe_)),
        ];
        if let Some(imp) = tcx.trait_impl_of_assoc(d) {
            let tr = tcx.impl_trait_ref(imp).instantiate_identity().skip_norm_wip();
            o.push(("trait", s(cx.path(tr.def_id))));
            let st = cx.ty(tr.self_ty());
            o.push(("self_ty", st));
            if let Some(adt) = tr.self_ty().ty_adt_def() {
                if let Some(l) = adt.did().as_local() {
                    o.push(("self_public", J::Bool(ev.is_reachable(l))));
                }
            }
        } else if let Some(imp) = tcx.inherent_impl_of_assoc(d) {
            let st = tcx.type_of(imp).instantiate_identity().skip_norm_wip();
            let st = cx.ty(st);
            o.push(("self_ty", st));
        }
        roots.push(J::Obj(o));
    }
    while let Some((id, i, env)) = cx.queue.pop() {
        cx.env = env;
        cx.dump_fn(id, i);
    }
    // public ADTs
    let mut adts = vec![];
    cx.env = TypingEnv::fully_monomorphized();
    for id in tcx.hir_crate_items(()).free_items() {
        let d = id.owner_id.to_def_id();
        if matches!(tcx.def_kind(d), DefKind::Struct | DefKind::Enum | DefKind::Union) {
            let t = tcx.type_of(d).instantiate_identity().skip_norm_wip();
            let tj = cx.ty(t);
            let auto = |name: rustc_span::Symbol| -> bool {
                use rustc_infer::infer::TyCtxtInferExt;
                use rustc_trait_selection::infer::InferCtxtExt;
                let tr = match tcx.get_diagnostic_item(name) {
                    Some(t) => t,
                    None => return false,
                };
                let infcx = tcx.infer_ctxt().build(ty::TypingMode::non_body_analysis());
                infcx.type_implements_trait(tr, [t], tcx.param_env(d)).must_apply_modulo_regions()
            };
            adts.push(J::Obj(vec![
                ("path", s(cx.path(d))),
                ("send", J::Bool(auto(rustc_span::sym::Send))),
                ("sync", J::Bool(auto(rustc_span::sym::Sync))),
                ("span", s(tcx.sess.source_map().span_to_diagnostic_string(tcx.def_span(d)))),
                ("ty", tj),
                ("public", J::Bool(ev.is_reachable(d.expect_local()))),
            ]));
        }
        if matches!(tcx.def_kind(d), DefKind::Static { .. }) {
            items.push(J::Obj(vec![("path", s(cx.path(d))), ("kind", s("Static"))]));
        }
    }
    while let Some((id, i, env)) = cx.queue.pop() {
        cx.env = env;
        cx.dump_fn(id, i);
    }
    let mut uv = Unsafe { tcx, sites: vec![] };
    tcx.hir_visit_all_item_likes_in_crate(&mut uv);
    let sites = uv.sites.into_iter().map(|(k, w)| J::Obj(vec![("kind", s(k)), ("at", s(w))])).collect();
    let doc = J::Obj(vec![
        ("unsafe_sites", J::Arr(sites)),
        ("crate", s(tcx.crate_name(LOCAL_CRATE).to_string())),
        ("roots", J::Arr(roots)),
        ("items", J::Arr(items)),
        ("adts", J::Arr(adts)),
        ("types", J::Arr(std::mem::take(&mut cx.types))),
        ("fns", J::Arr(std::mem::take(&mut cx.fns))),
    ]);
    let mut st = String::new();
    doc.write(&mut st);
    std::fs::write(&out, st).expect("write MIRDUMP_OUT");
}

struct Cb;
impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let want = std::env::var("MIRDUMP_CRATE").unwrap_or_default();
        let name = tcx.crate_name(LOCAL_CRATE).to_string();
        if name == want && !tcx.sess.is_test_crate() {
            dump(tcx);
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].contains("/rustc")) {
        args.remove(1);
    }
    args.push("-Zmir-opt-level=0".to_string());
    // Without debug assertions, what they assert is not assumed.
    if std::env::var("MIRDUMP_ASSERTS").map_or(false, |v| v == "off") {
        args.push("-Cdebug-assertions=off".to_string());
        args.push("-Coverflow-checks=on".to_string());
    }
    args.push("-Awarnings".to_string());
    rustc_driver::compiler_entrypoint(&args, &mut Cb);
}
