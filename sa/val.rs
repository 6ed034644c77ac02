// Abstract values, memory and states.
use crate::facts::Facts;
use crate::prog::*;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet};
use crate::fx::{HashMap};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum V {
    Undef,
    Int(Lin),
    Bool(F),
    Adt(Rc<AdtV>),
    Opq(T, Ty),
    Ref(Ptr),
    Slice(Rc<SliceV>),
    Seq(Rc<SeqV>),
    Fnv(Ty),
}
#[derive(Clone, Debug, PartialEq)]
pub struct AdtV {
    pub ty: Ty,
    pub var: u32,
    pub f: Vec<V>,
}
/// Quantified fact about a sequence: for every index i in [lo,hi), f holds of the element
/// (written `var` in f).
#[derive(Clone, Debug, PartialEq)]
pub struct Q {
    pub lo: Lin,
    pub hi: Lin,
    pub var: T,
    pub f: F,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Tpl {
    Any,
    Bot,
    V(Rc<TplV>),
}
#[derive(Clone, Debug, PartialEq)]
pub struct TplV {
    pub v: V,
    pub gs: Vec<T>,
    pub fs: Vec<F>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SeqV {
    pub c: T,
    pub len: Lin,
    pub ety: Ty,
    pub tpl: Tpl,
    pub q: Vec<Q>,
}
#[derive(Clone, Debug, PartialEq)]
pub struct SliceV {
    pub seq: Rc<SeqV>,
    pub off: Lin,
    pub len: Lin,
    pub loc: Option<Ptr>,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Root_ {
    Local(u32, u32),
    Heap(T),
}
#[derive(Clone, Debug, PartialEq)]
pub enum Pj {
    F(u32, u32, Ty),
    El(Lin),
}
#[derive(Clone, Debug, PartialEq)]
pub struct Ptr {
    pub root: Root_,
    pub path: Rc<Vec<Pj>>,
}
impl Ptr {
    pub fn heap(t: T) -> Ptr {
        Ptr { root: Root_::Heap(t), path: Rc::new(vec![]) }
    }
    pub fn local(d: u32, l: u32) -> Ptr {
        Ptr { root: Root_::Local(d, l), path: Rc::new(vec![]) }
    }
    pub fn push(&self, p: Pj) -> Ptr {
        let mut v = (*self.path).clone();
        v.push(p);
        Ptr { root: self.root, path: Rc::new(v) }
    }
}
impl V {
    pub fn int(k: i128) -> V {
        V::Int(Lin::k(k))
    }
    pub fn adt(ty: Ty, var: u32, f: Vec<V>) -> V {
        V::Adt(Rc::new(AdtV { ty, var, f }))
    }
    pub fn is_undef(&self) -> bool {
        matches!(self, V::Undef)
    }
}

#[derive(Clone, Debug)]
pub struct State {
    pub fr: Vec<Rc<Vec<V>>>,
    pub heap: Rc<BTreeMap<T, V>>,
    pub fx: Rc<Facts>,
    // discrete ghost state (part of the partitioning key)
    pub gh: Rc<BTreeMap<String, i64>>,
    // ghost values (joined like ordinary values)
    pub gv: Rc<BTreeMap<String, V>>,
}
impl State {
    pub fn new() -> State {
        State { fr: vec![], heap: Rc::new(BTreeMap::new()), fx: Rc::new(Facts::default()), gh: Rc::new(BTreeMap::new()), gv: Rc::new(BTreeMap::new()) }
    }
    pub fn assume(&mut self, f: &F) -> bool {
        match f {
            F::T => return !self.fx.bot,
            _ => {}
        }
        Rc::make_mut(&mut self.fx).assume(f)
    }
    pub fn implies(&self, f: &F) -> bool {
        self.fx.implies(f)
    }
    pub fn g(&self, k: &str) -> i64 {
        self.gh.get(k).cloned().unwrap_or(0)
    }
    pub fn set_g(&mut self, k: &str, v: i64) {
        if self.g(k) == v {
            return;
        }
        let m = Rc::make_mut(&mut self.gh);
        if v == 0 {
            m.remove(k);
        } else {
            m.insert(k.to_string(), v);
        }
    }
    pub fn set_gv(&mut self, k: &str, v: V) {
        Rc::make_mut(&mut self.gv).insert(k.to_string(), v);
    }
    pub fn del_gv(&mut self, k: &str) {
        if self.gv.contains_key(k) {
            Rc::make_mut(&mut self.gv).remove(k);
        }
    }
    pub fn depth(&self) -> u32 {
        self.fr.len() as u32 - 1
    }
    pub fn local(&self, d: u32, l: u32) -> &V {
        &self.fr[d as usize][l as usize]
    }
    pub fn set_local(&mut self, d: u32, l: u32, v: V) {
        Rc::make_mut(&mut self.fr[d as usize])[l as usize] = v;
    }
}

#[derive(Clone, Debug)]
pub enum Loc {
    P(Ptr),
    Slice(Rc<SliceV>),
    Val(V),
}

/// Type-directed creation of symbolic values and memory access.
pub struct Mem {
    pub prog: Rc<Prog>,
    pub heap_ty: HashMap<T, Ty>,
    /// constant elements of arrays
    pub arrs: HashMap<T, Rc<Vec<V>>>,
    /// Contents of promoted constants.
    pub statics: HashMap<T, V>,
    pub usize_ty: Ty,
    pub u8_ty: Ty,
    pub bool_ty: Ty,
    /// Numbers kept in lists have templates too.
    pub int_tpl: bool,
}
pub const SEQ_PATHS: &[&str] = &[
    "std::vec::Vec",
    "std::string::String",
    "std::path::PathBuf",
    "std::path::Path",
    "std::ffi::OsString",
    "std::ffi::OsStr",
    "bytes::Bytes",
    "bytes::BytesMut",
    "smallvec::SmallVec",
    "bstr::BStr",
    "bstr::BString",
    "std::collections::VecDeque",
];
impl Mem {
    /// If the type is a sequence, its element type.
    pub fn seq_elem(&self, ty: Ty) -> Option<Ty> {
        match self.prog.k(ty) {
            TK::Str => Some(self.u8_ty),
            TK::Slice(e) | TK::Array(e, _) => Some(*e),
            TK::Adt { path, args, .. } if SEQ_PATHS.contains(&path.as_str()) => match path.as_str() {
                "std::vec::Vec" | "std::collections::VecDeque" => args.first().cloned(),
                "smallvec::SmallVec" => args.first().and_then(|a| self.seq_elem(*a)),
                _ => Some(self.u8_ty),
            },
            _ => None,
        }
    }
    pub fn is_unsized_seq(&self, ty: Ty) -> bool {
        match self.prog.k(ty) {
            TK::Str | TK::Slice(_) => true,
            TK::Adt { path, .. } => matches!(path.as_str(), "std::path::Path" | "std::ffi::OsStr" | "bstr::BStr"),
            _ => false,
        }
    }
    /// Pointer-like types whose pointee is modelled in the heap.
    pub fn ptr_elem(&self, ty: Ty) -> Option<Ty> {
        match self.prog.k(ty) {
            TK::Ref(e, _) | TK::Ptr(e, _) => Some(*e),
            TK::Adt { path, args, .. } if matches!(path.as_str(), "std::boxed::Box" | "std::sync::Arc" | "std::rc::Rc" | "std::ptr::NonNull") => args.first().cloned(),
            _ => None,
        }
    }
    pub fn ranged_atom(&self, t: T, ty: Ty) -> T {
        if let K::Lin(_) = kind(t) {
            return t;
        }
        if let Some(r) = self.prog.int_range(ty) {
            set_range(t, r);
        }
        t
    }
    pub fn seq(&self, c: T, len: Lin, ety: Ty) -> V {
        V::Seq(Rc::new(SeqV { c, len, ety, tpl: Tpl::Any, q: vec![] }))
    }
    pub fn mat(&mut self, t: T, ty: Ty) -> V {
        match self.prog.k(ty).clone() {
            TK::Int { .. } | TK::Char => {
                self.ranged_atom(t, ty);
                V::Int(lt(t))
            }
            TK::Bool => {
                let l = lt(t);
                match l.is_const() {
                    Some(c) => V::Bool(F::of(c != 0)),
                    None => {
                        set_range(t, (0, 1));
                        V::Bool(F::Eq(l.addc(-1)))
                    }
                }
            }
            TK::Tuple(ts) => {
                let f = ts.iter().enumerate().map(|(i, x)| self.mat(app("fld", vec![t, tl(&Lin::k(0)), tl(&Lin::k(i as i128))]), *x)).collect();
                V::adt(ty, 0, f)
            }
            TK::FnDef(_) => V::Fnv(ty),
            TK::Closure { upvars, .. } => {
                let f = upvars.iter().enumerate().map(|(i, x)| self.mat(app("fld", vec![t, tl(&Lin::k(0)), tl(&Lin::k(i as i128))]), *x)).collect();
                V::adt(ty, 0, f)
            }
            TK::Array(e, n) => {
                let len = match n {
                    Some(n) => Lin::k(n),
                    None => Lin::atom(len_t(t)),
                };
                self.seq(t, len, e)
            }
            _ => {
                if let Some(e) = self.seq_elem(ty) {
                    return self.seq(t, lt(len_t(t)), e);
                }
                if let Some(p) = self.ptr_elem(ty) {
                    if let (true, Some(e)) = (self.is_unsized_seq(p), self.seq_elem(p)) {
                        let c = app("deref", vec![t]);
                        let len = lt(len_t(c));
                        return V::Slice(Rc::new(SliceV { seq: Rc::new(SeqV { c, len: len.clone(), ety: e, tpl: Tpl::Any, q: vec![] }), off: Lin::k(0), len, loc: None }));
                    }
                    let h = app("deref", vec![t]);
                    self.heap_ty.insert(h, p);
                    return V::Ref(Ptr::heap(h));
                }
                V::Opq(t, ty)
            }
        }
    }
    pub fn fresh(&mut self, hint: &str, ty: Ty) -> V {
        self.mat(fresh(hint), ty)
    }
    pub fn field_tys(&self, ty: Ty, var: u32) -> Option<Vec<Ty>> {
        match self.prog.k(ty) {
            TK::Tuple(t) => Some(t.clone()),
            TK::Closure { upvars, .. } => Some(upvars.clone()),
            TK::Adt { variants: Some(v), .. } => v.get(var as usize).map(|x| x.fields.iter().map(|f| f.ty).collect()),
            _ => None,
        }
    }
    pub fn fld(&mut self, t: T, var: u32, i: u32, ty: Ty) -> V {
        self.mat(app("fld", vec![t, tl(&Lin::k(var as i128)), tl(&Lin::k(i as i128))]), ty)
    }
    pub fn expand(&mut self, v: &V, var: u32) -> V {
        match v {
            V::Opq(t, ty) => {
                if let Some(ts) = self.field_tys(*ty, var) {
                    let f = ts.iter().enumerate().map(|(i, x)| self.fld(*t, var, i as u32, *x)).collect();
                    return V::adt(*ty, var, f);
                }
                V::Undef
            }
            _ => v.clone(),
        }
    }
    pub fn get(&mut self, st: &mut State, v: &V, p: &Pj) -> V {
        match p {
            Pj::F(var, i, ty) => match v {
                V::Adt(a) => a.f.get(*i as usize).cloned().unwrap_or(V::Undef),
                V::Opq(t, _) => self.fld(*t, *var, *i, *ty),
                // the raw pointer inside a box
                V::Seq(_) | V::Ref(_) => v.clone(),
                _ => V::Undef,
            },
            Pj::El(i) => match v {
                V::Seq(s) => self.elem(st, &s.clone(), i),
                V::Opq(t, ty) => match self.seq_elem(*ty) {
                    Some(e) => self.mat(sel(*t, i, None), e),
                    None => V::Undef,
                },
                _ => V::Undef,
            },
        }
    }
    pub fn elem(&mut self, st: &mut State, s: &SeqV, i: &Lin) -> V {
        let i = st.fx.norm(i);
        if let (Some(k), Some(vs)) = (i.is_const(), self.arrs.get(&s.c)) {
            if let Some(v) = vs.get(k as usize) {
                return v.clone();
            }
        }
        match &s.tpl {
            Tpl::Any => {
                let r = self.prog.int_range(s.ety);
                let t = sel(s.c, &i, r);
                for q in &s.q {
                    if st.implies(&F::le(&q.lo, &i)) && st.implies(&F::lt(&i, &q.hi)) {
                        let v = q.var;
                        let rep = lt(t);
                        let fm = |a: T| if a == v { Some(rep.clone()) } else { None };
                        let tc = |d: &BTreeSet<T>| d.contains(&v);
                        let sb = Subst::new(&fm, &tc);
                        let f = q.f.map(&|l| sb.lin(l));
                        st.assume(&f);
                    }
                }
                self.mat(t, s.ety)
            }
            Tpl::Bot => V::Undef,
            Tpl::V(tp) => {
                let (c, it) = (s.c, tl(&i));
                let gs: BTreeMap<T, Lin> = tp.gs.iter().map(|g| {
                    let n = app("inst", vec![c, it, *g]);
                    if let Some(r) = range(*g) {
                        set_range(n, r);
                    }
                    (*g, Lin::atom(n))
                }).collect();
                let fm = |a: T| gs.get(&a).cloned();
                let tc = |d: &BTreeSet<T>| gs.keys().any(|g| d.contains(g));
                let sb = Subst::new(&fm, &tc);
                for f in &tp.fs {
                    let f = f.map(&|l| sb.lin(l));
                    st.assume(&f);
                }
                self.subst_v(&tp.v, &sb)
            }
        }
    }
    pub fn subst_v(&mut self, v: &V, s: &Subst) -> V {
        match v {
            V::Undef | V::Fnv(_) => v.clone(),
            V::Int(l) => V::Int(s.lin(l)),
            V::Bool(f) => V::Bool(f.map(&|l| s.lin(l))),
            V::Adt(a) => V::Adt(Rc::new(AdtV { ty: a.ty, var: a.var, f: a.f.iter().map(|x| self.subst_v(x, s)).collect() })),
            V::Opq(t, ty) => {
                let n = s.t(*t);
                V::Opq(n, *ty)
            }
            V::Ref(p) => V::Ref(self.subst_p(p, s)),
            V::Slice(x) => V::Slice(Rc::new(SliceV { seq: Rc::new(self.subst_seq(&x.seq, s)), off: s.lin(&x.off), len: s.lin(&x.len), loc: x.loc.as_ref().map(|p| self.subst_p(p, s)) })),
            V::Seq(x) => V::Seq(Rc::new(self.subst_seq(x, s))),
        }
    }
    fn subst_p(&mut self, p: &Ptr, s: &Subst) -> Ptr {
        Ptr {
            root: match p.root {
                Root_::Heap(t) => {
                    let n = s.t(t);
                    if n != t {
                        if let Some(ty) = self.heap_ty.get(&t).cloned() {
                            self.heap_ty.insert(n, ty);
                        }
                    }
                    Root_::Heap(n)
                }
                r => r,
            },
            path: if p.path.is_empty() {
                p.path.clone()
            } else {
                Rc::new(
                    p.path
                        .iter()
                        .map(|x| match x {
                            Pj::El(l) => Pj::El(s.lin(l)),
                            y => y.clone(),
                        })
                        .collect(),
                )
            },
        }
    }
    pub fn subst_seq(&mut self, x: &SeqV, s: &Subst) -> SeqV {
        SeqV {
            c: s.t(x.c),
            len: s.lin(&x.len),
            ety: x.ety,
            tpl: match &x.tpl {
                Tpl::V(t) => Tpl::V(Rc::new(TplV { v: self.subst_v(&t.v, s), gs: t.gs.clone(), fs: t.fs.iter().map(|f| f.map(&|l| s.lin(l))).collect() })),
                t => t.clone(),
            },
            q: x.q.iter().map(|q| Q { lo: s.lin(&q.lo), hi: s.lin(&q.hi), var: q.var, f: q.f.map(&|l| s.lin(l)) }).collect(),
        }
    }
    pub fn root(&mut self, st: &State, r: Root_) -> V {
        match r {
            Root_::Local(d, l) => st.fr.get(d as usize).and_then(|f| f.get(l as usize)).cloned().unwrap_or(V::Undef),
            Root_::Heap(t) => {
                let n = t;
                if let Some(v) = st.heap.get(&n) {
                    return v.clone();
                }
                if let Some(v) = self.statics.get(&n) {
                    return v.clone();
                }
                match self.heap_ty.get(&t).cloned() {
                    Some(ty) => self.mat(t, ty),
                    None => V::Undef,
                }
            }
        }
    }
    pub fn read(&mut self, st: &mut State, p: &Ptr) -> V {
        let mut v = self.root(st, p.root);
        for x in p.path.iter() {
            v = self.get(st, &v, x);
        }
        v
    }
    pub fn write(&mut self, st: &mut State, p: &Ptr, nv: V) {
        let cur = if p.path.is_empty() { V::Undef } else { self.root(st, p.root) };
        let v = self.set(st, &cur, &p.path, nv);
        match p.root {
            Root_::Local(d, l) => {
                if (d as usize) < st.fr.len() {
                    st.set_local(d, l, v)
                }
            }
            Root_::Heap(t) => {
                Rc::make_mut(&mut st.heap).insert(t, v);
            }
        }
    }
    fn set(&mut self, st: &mut State, cur: &V, path: &[Pj], nv: V) -> V {
        if path.is_empty() {
            return nv;
        }
        match &path[0] {
            Pj::F(var, i, _) => {
                let e = match cur {
                    V::Opq(..) => self.expand(cur, *var),
                    x => x.clone(),
                };
                match &e {
                    V::Adt(a) if (*i as usize) < a.f.len() => {
                        let inner = self.set(st, &a.f[*i as usize].clone(), &path[1..], nv);
                        let mut b = (**a).clone();
                        b.f[*i as usize] = inner;
                        V::Adt(Rc::new(b))
                    }
                    V::Undef => {
                        // partially initialised aggregate
                        let mut f = vec![V::Undef; *i as usize + 1];
                        f[*i as usize] = self.set(st, &V::Undef, &path[1..], nv);
                        V::adt(u32::MAX, *var, f)
                    }
                    V::Adt(a) => {
                        let mut b = (**a).clone();
                        while b.f.len() <= *i as usize {
                            b.f.push(V::Undef);
                        }
                        b.f[*i as usize] = self.set(st, &V::Undef, &path[1..], nv);
                        V::Adt(Rc::new(b))
                    }
                    _ => V::Undef,
                }
            }
            Pj::El(_) => match cur {
                V::Seq(s) => {
                    // weak update: the content becomes unknown, the length stays
                    let mut n = (**s).clone();
                    n.c = fresh("upd");
                    n.q.clear();
                    n.tpl = Tpl::Any;
                    V::Seq(Rc::new(n))
                }
                _ => V::Undef,
            },
        }
    }
    pub fn read_loc(&mut self, st: &mut State, l: &Loc) -> V {
        match l {
            Loc::P(p) => self.read(st, p),
            Loc::Val(v) => v.clone(),
            Loc::Slice(s) => V::Seq(Rc::new(SeqV { c: sl(s.seq.c, &s.off, &s.len), len: s.len.clone(), ety: s.seq.ety, tpl: s.seq.tpl.clone(), q: shift_q(&s.seq.q, &s.off) })),
        }
    }
    /// The sequence a reference-like value points at, as a slice.
    pub fn as_slice(&mut self, st: &mut State, v: &V) -> Option<Rc<SliceV>> {
        match v {
            V::Slice(s) => Some(s.clone()),
            V::Seq(s) => Some(Rc::new(SliceV { seq: s.clone(), off: Lin::k(0), len: s.len.clone(), loc: None })),
            V::Ref(p) => {
                let x = self.read(st, p);
                match &x {
                    V::Seq(s) => Some(Rc::new(SliceV { seq: s.clone(), off: Lin::k(0), len: s.len.clone(), loc: Some(p.clone()) })),
                    V::Slice(_) | V::Ref(_) => self.as_slice(st, &x),
                    // smart pointers and references behind a reference
                    V::Opq(t, ty) => {
                        let c = app("asref", vec![*t]);
                        let _ = ty;
                        let len = lt(len_t(c));
                        Some(Rc::new(SliceV { seq: Rc::new(SeqV { c, len: len.clone(), ety: self.u8_ty, tpl: Tpl::Any, q: vec![] }), off: Lin::k(0), len, loc: None }))
                    }
                    _ => None,
                }
            }
            V::Opq(t, _) => {
                let c = app("asref", vec![*t]);
                let len = lt(len_t(c));
                Some(Rc::new(SliceV { seq: Rc::new(SeqV { c, len: len.clone(), ety: self.u8_ty, tpl: Tpl::Any, q: vec![] }), off: Lin::k(0), len, loc: None }))
            }
            _ => None,
        }
    }
    pub fn slice_elem(&mut self, st: &mut State, s: &SliceV, i: &Lin) -> V {
        let idx = s.off.add(i);
        self.elem(st, &s.seq.clone(), &idx)
    }
    pub fn slice_content(&self, st: &State, s: &SliceV) -> T {
        let off = st.fx.norm(&s.off);
        let len = st.fx.norm(&s.len);
        let c = st.fx.norm_t(s.seq.c);
        if off.is_const() == Some(0) && st.fx.norm(&s.seq.len) == len && is_app(c, "sl").is_none() {
            return c;
        }
        sl(c, &off, &len)
    }
    /// A reference to a value that has no place of its own.
    pub fn temp_ref(&mut self, st: &mut State, v: V, ty: Ty) -> V {
        let h = fresh("tmp");
        self.heap_ty.insert(h, ty);
        Rc::make_mut(&mut st.heap).insert(h, v);
        V::Ref(Ptr::heap(h))
    }
    /// Follows references until a non-reference value.
    pub fn deref_all(&mut self, st: &mut State, v: &V) -> V {
        let mut cur = v.clone();
        for _ in 0..6 {
            match &cur {
                V::Ref(p) => cur = self.read(st, &p.clone()),
                _ => break,
            }
        }
        cur
    }
    /// Forgets everything about the memory a value gives mutable access to.
    pub fn havoc_behind(&mut self, st: &mut State, v: &V) {
        match v {
            V::Ref(p) => {
                let old = self.read(st, p);
                let n = self.havoc_v(&old);
                self.write(st, p, n);
            }
            V::Slice(s) => {
                if let Some(p) = &s.loc {
                    let old = self.read(st, p);
                    if let V::Seq(q) = &old {
                        let mut n = (**q).clone();
                        n.c = fresh("havoc");
                        n.q.clear();
                        n.tpl = Tpl::Any;
                        self.write(st, p, V::Seq(Rc::new(n)));
                    }
                }
            }
            _ => {}
        }
    }
    pub fn havoc_v(&mut self, v: &V) -> V {
        match v {
            V::Int(l) => {
                let t = fresh("havoc");
                if let (Some(lo), Some(hi)) = l.bounds() {
                    let _ = (lo, hi);
                }
                set_range(t, (0, (1i128 << 64) - 1));
                V::Int(Lin::atom(t))
            }
            V::Bool(_) => V::Bool(F::atom(fresh("havoc"))),
            V::Seq(s) => {
                let c = fresh("havoc");
                V::Seq(Rc::new(SeqV { c, len: lt(len_t(c)), ety: s.ety, tpl: Tpl::Any, q: vec![] }))
            }
            V::Opq(_, ty) => V::Opq(fresh("havoc"), *ty),
            V::Adt(a) => {
                if self.prog.is_enum(a.ty) {
                    V::Opq(fresh("havoc"), a.ty)
                } else {
                    V::Adt(Rc::new(AdtV { ty: a.ty, var: a.var, f: a.f.iter().map(|x| self.havoc_v(x)).collect() }))
                }
            }
            x => x.clone(),
        }
    }
}
pub fn shift_q(q: &[Q], off: &Lin) -> Vec<Q> {
    q.iter().map(|x| Q { lo: x.lo.sub(off), hi: x.hi.sub(off), var: x.var, f: x.f.clone() }).collect()
}
