// Joining abstract states: values are anti-unified (differing integers and contents become phi
// atoms), and the facts kept are those of either side, re-expressed over the phi atoms, that
// both sides imply.
use crate::facts::Facts;
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};
use crate::fx::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug, PartialEq)]
pub enum M {
    Bot,
    Top,
    L(Lin),
}
#[derive(Clone, Debug)]
struct Phi {
    t: T,
    p: M,
    b: M,
    own: Option<usize>,
}
struct TplCtx {
    pfs: Vec<F>,
    bfs: Vec<F>,
}
pub struct Joiner<'a> {
    mem: &'a mut Mem,
    p: State,
    b: State,
    pset: &'a HashSet<T>,
    phis: Vec<Phi>,
    memo: HashMap<(Option<T>, Option<T>, Option<usize>), T>,
    fixed: HashMap<T, M>, // old phi -> its value in B
    tpls: Vec<TplCtx>,
    own: Option<usize>,
    own_gs: HashSet<T>, // generic atoms of the template on the P side
    pub changed: bool,
    heap_done: BTreeMap<T, ()>,
    new_heap: Vec<(T, V)>,
}
const USIZE: (i128, i128) = (0, (1i128 << 64) - 1);
const LEN: (i128, i128) = (0, (1i128 << 63) - 1);

impl<'a> Joiner<'a> {
    fn is_old(&self, t: T) -> bool {
        self.pset.contains(&t) || (self.own.is_some() && self.own_gs.contains(&t))
    }
    fn has_old(&self, l: &Lin) -> bool {
        l.m.iter().any(|(a, _)| deep(*a).iter().any(|x| self.is_old(*x)))
    }
    fn olds(&self, l: &Lin) -> Vec<T> {
        l.deep().into_iter().filter(|x| self.is_old(*x)).collect()
    }
    fn jint(&mut self, lp: M, lb: M, rng: Option<(i128, i128)>) -> Lin {
        // an atom of an earlier join stays, even where its value is known
        let raw = match &lp {
            M::L(l) => l.as_atom().filter(|a| self.is_old(*a)),
            _ => None,
        };
        let lp = match lp {
            M::L(l) if raw.is_none() => M::L(self.p.fx.norm(&l)),
            m => m,
        };
        let lb = match lb {
            M::L(l) => M::L(self.b.fx.norm(&l)),
            m => m,
        };
        if let (M::L(x), M::L(y)) = (&lp, &lb) {
            if x == y {
                let olds = self.olds(x);
                let ok = olds.iter().all(|o| match self.fixed.get(o) {
                    None => true,
                    Some(M::L(l)) => l.as_atom() == Some(*o),
                    _ => false,
                });
                if ok {
                    for o in olds {
                        self.fix(o, M::L(Lin::atom(o)));
                    }
                    return x.clone();
                }
            }
        }
        if let M::L(x) = &lp {
            if let Some(a) = x.as_atom() {
                if self.is_old(a) {
                    match self.fixed.get(&a) {
                        None => {
                            self.fix(a, lb.clone());
                            return x.clone();
                        }
                        Some(m) if *m == lb => return x.clone(),
                        _ => {}
                    }
                }
            }
        }
        let key = (
            match &lp {
                M::L(l) => Some(tl(l)),
                _ => None,
            },
            match &lb {
                M::L(l) => Some(tl(l)),
                _ => None,
            },
            self.own,
        );
        if lp != M::Top && lb != M::Top {
            if let Some(t) = self.memo.get(&key) {
                if let (Some(r), None) = (rng, range(*t)) {
                    set_range(*t, r);
                }
                return Lin::atom(*t);
            }
        }
        let t = fresh("phi");
        if let Some(r) = rng {
            set_range(t, r);
        }
        self.memo.insert(key, t);
        self.phis.push(Phi { t, p: lp, b: lb, own: self.own });
        self.changed = true;
        Lin::atom(t)
    }
    fn fix(&mut self, a: T, m: M) {
        if !self.fixed.contains_key(&a) {
            self.fixed.insert(a, m.clone());
            self.phis.push(Phi { t: a, p: M::L(Lin::atom(a)), b: m, own: self.own });
        }
    }
    fn jt(&mut self, tp: T, tb: T) -> T {
        let l = self.jint(M::L(lt(tp)), M::L(lt(tb)), None);
        tl(&l)
    }
    fn rng(&self, ty: Option<Ty>) -> Option<(i128, i128)> {
        match ty {
            Some(t) => match self.mem.prog.int_range(t) {
                Some(r) => Some(r),
                None => Some(USIZE),
            },
            None => Some(USIZE),
        }
    }
    fn top(&mut self, ty: Option<Ty>, vp: &V) -> V {
        // keep an existing phi if there is one
        match ty {
            Some(ty) => {
                if let V::Opq(t, _) = vp {
                    let l = self.jint(M::L(lt(*t)), M::Top, None);
                    return V::Opq(tl(&l), ty);
                }
                match self.mem.prog.k(ty) {
                    TK::Adt { is_enum: true, .. } | TK::Dyn(_) | TK::Param | TK::Other | TK::Adt { .. } => {
                        let l = self.jint(M::Top, M::Top, None);
                        let t = tl(&l);
                        match vp {
                            V::Seq(_) | V::Slice(_) | V::Ref(_) => self.mem.mat(t, ty),
                            _ => V::Opq(t, ty),
                        }
                    }
                    _ => V::Undef,
                }
            }
            None => V::Undef,
        }
    }
    pub fn jv(&mut self, vp: &V, vb: &V, ty: Option<Ty>) -> V {
        match (vp, vb) {
            (V::Undef, V::Undef) => V::Undef,
            (V::Undef, _) => V::Undef,
            (_, V::Undef) => {
                self.changed = true;
                V::Undef
            }
            (V::Int(a), V::Int(b)) => {
                let r = self.rng(ty);
                V::Int(self.jint(M::L(a.clone()), M::L(b.clone()), r))
            }
            (V::Bool(a), V::Bool(b)) => {
                let la = self.bool_lin(a, true);
                let lb = self.bool_lin(b, false);
                if a == b {
                    let mut plain = true;
                    a.visit(&mut |l| plain &= !self.has_old(l));
                    if plain {
                        return vp.clone();
                    }
                }
                if la.is_none() && lb.is_none() && a == b {
                    // same formula over old phis: keep when they are unchanged so far
                    let mut olds = vec![];
                    a.visit(&mut |l| olds.extend(self.olds(l)));
                    if olds.iter().all(|o| matches!(self.fixed.get(o), Some(M::L(l)) if l.as_atom() == Some(*o))) {
                        return vp.clone();
                    }
                }
                let m = |x: Option<Lin>| x.map(M::L).unwrap_or(M::Top);
                let l = self.jint(m(la), m(lb), Some((0, 1)));
                match l.is_const() {
                    Some(c) => V::Bool(F::of(c != 0)),
                    None => V::Bool(F::Eq(l.addc(-1))),
                }
            }
            (V::Adt(a), V::Adt(b)) => {
                if a.var == b.var && a.f.len() == b.f.len() && (a.ty == b.ty || a.ty == u32::MAX || b.ty == u32::MAX) {
                    let tys = self.mem.field_tys(a.ty, a.var);
                    let mut f = vec![];
                    for i in 0..a.f.len() {
                        let t = tys.as_ref().and_then(|t| t.get(i).cloned());
                        f.push(self.jv(&a.f[i], &b.f[i], t));
                    }
                    return V::adt(a.ty, a.var, f);
                }
                if a.ty == b.ty && self.mem.prog.is_enum(a.ty) {
                    self.changed = true;
                    return self.top(Some(a.ty), vp);
                }
                self.changed = true;
                V::Undef
            }
            (V::Opq(t, a), V::Opq(u, b)) if a == b => match (kind(*t), kind(*u)) {
                // a stream opened from the same path on either side
                (K::App(f, x), K::App(g, y)) if t != u && f == g && matches!(f, "dir" | "file") && x.len() == 2 && y.len() == 2 && x[0] == y[0] => {
                    let r = self.jt(x[1], y[1]);
                    V::Opq(app(f, vec![x[0], r]), *a)
                }
                _ => V::Opq(self.jt(*t, *u), *a),
            },
            (V::Opq(_, a), V::Adt(b)) if *a == b.ty => {
                if !self.mem.prog.is_enum(*a) || self.known_var(&self.p.clone(), vp) == Some(b.var) {
                    let e = self.mem.expand(vp, b.var);
                    return self.jv(&e, vb, ty);
                }
                self.top(Some(*a), vp)
            }
            (V::Adt(a), V::Opq(_, b)) if *b == a.ty => {
                if !self.mem.prog.is_enum(*b) || self.known_var(&self.b.clone(), vb) == Some(a.var) {
                    let e = self.mem.expand(vb, a.var);
                    return self.jv(vp, &e, ty);
                }
                self.changed = true;
                self.top(Some(*b), vp)
            }
            (V::Ref(a), V::Ref(b)) => {
                if a == b {
                    return vp.clone();
                }
                if a.root == b.root && a.path.len() == b.path.len() {
                    let mut path = vec![];
                    let mut ok = true;
                    for (x, y) in a.path.iter().zip(b.path.iter()) {
                        match (x, y) {
                            (Pj::El(i), Pj::El(j)) => path.push(Pj::El(self.jint(M::L(i.clone()), M::L(j.clone()), Some(LEN)))),
                            (x, y) if x == y => path.push(x.clone()),
                            _ => ok = false,
                        }
                    }
                    if ok {
                        return V::Ref(Ptr { root: a.root, path: Rc::new(path) });
                    }
                }
                if let Some(t) = ty {
                    if matches!(self.mem.prog.k(t), TK::Ref(_, true) | TK::Ptr(_, true)) {
                        self.changed = true;
                        return V::Undef;
                    }
                }
                // shared references to different places: a cell holding the joined value
                let key = |p: &Ptr| -> T {
                    match (p.root, p.path.is_empty()) {
                        (Root_::Heap(t), true) => t,
                        (r, _) => app("place", vec![lit(format!("{:?}{:?}", r, p.path).as_bytes())]),
                    }
                };
                let h = self.jt(key(a), key(b));
                if self.heap_done.insert(h, ()).is_none() {
                    let mut ps = self.p.clone();
                    let mut bs = self.b.clone();
                    let x = self.mem.read(&mut ps, a);
                    let y = self.mem.read(&mut bs, b);
                    let ety = ty.and_then(|t| self.mem.ptr_elem(t));
                    let v = self.jv(&x, &y, ety);
                    if let Some(e) = ety {
                        self.mem.heap_ty.insert(h, e);
                    }
                    self.new_heap.push((h, v));
                }
                V::Ref(Ptr::heap(h))
            }
            (V::Slice(a), V::Slice(b)) => {
                let s = self.jseq(&a.seq, &b.seq);
                let off = self.jint(M::L(a.off.clone()), M::L(b.off.clone()), Some(LEN));
                let len = self.jint(M::L(a.len.clone()), M::L(b.len.clone()), Some(LEN));
                let loc = if a.loc == b.loc { a.loc.clone() } else { None };
                V::Slice(Rc::new(SliceV { seq: Rc::new(s), off, len, loc }))
            }
            (V::Seq(a), V::Seq(b)) => V::Seq(Rc::new(self.jseq(a, b))),
            (V::Fnv(a), V::Fnv(b)) if a == b => vp.clone(),
            _ => {
                self.changed = true;
                self.top(ty, vp)
            }
        }
    }
    fn known_var(&self, s: &State, v: &V) -> Option<u32> {
        if let V::Opq(t, ty) = v {
            let d = s.fx.norm(&lt(app("discr", vec![*t])));
            let c = d.is_const()?;
            return self.mem.prog.variants(*ty)?.iter().position(|x| x.discr == c).map(|x| x as u32);
        }
        None
    }
    fn bool_lin(&self, f: &F, p: bool) -> Option<Lin> {
        let fx = if p { &self.p.fx } else { &self.b.fx };
        if fx.implies(f) {
            return Some(Lin::k(1));
        }
        if fx.implies(&f.not()) {
            return Some(Lin::k(0));
        }
        if let F::Eq(l) = f {
            if l.m.len() == 1 && l.m[0].1 == 1 && range(l.m[0].0) == Some((0, 1)) {
                if l.c == -1 {
                    return Some(Lin::atom(l.m[0].0));
                }
                if l.c == 0 {
                    return Some(Lin::k(1).sub(&Lin::atom(l.m[0].0)));
                }
            }
        }
        None
    }
    fn jseq(&mut self, a: &SeqV, b: &SeqV) -> SeqV {
        let c = self.jt(a.c, b.c);
        let len = self.jint(M::L(a.len.clone()), M::L(b.len.clone()), Some(LEN));
        let tpl = if a.tpl == b.tpl && matches!(a.tpl, Tpl::Any | Tpl::Bot) {
            a.tpl.clone()
        } else {
            self.jtpl(a, b)
        };
        // quantified facts
        let mut q: Vec<Q> = vec![];
        if a.q == b.q && !a.q.iter().any(|x| self.has_old(&x.lo) || self.has_old(&x.hi)) {
            q = a.q.clone();
        } else {
            let mut seen: Vec<(F, T)> = vec![];
            for x in a.q.iter().chain(b.q.iter()) {
                let pred = canon_q(x);
                if seen.iter().any(|(f, _)| *f == pred.0) {
                    continue;
                }
                seen.push(pred.clone());
                // side ranges, empty when absent
                let ra = merged_range(&self.p, &a.q, &pred.0);
                let rb = merged_range(&self.b, &b.q, &pred.0);
                let (lo, hi) = match (ra, rb) {
                    (Some(x), Some(y)) => (
                        self.jint(M::L(x.0), M::L(y.0), Some(LEN)),
                        self.jint(M::L(x.1), M::L(y.1), Some(LEN)),
                    ),
                    (None, Some(y)) => {
                        // vacuous on the P side: pick an empty range at a plausible spot
                        let spot = if self.p.fx.norm(&y.0) == self.b.fx.norm(&y.0) { y.0.clone() } else { continue };
                        (spot.clone(), self.jint(M::L(spot), M::L(y.1), Some(LEN)))
                    }
                    (Some(x), None) => {
                        let spot = if self.p.fx.norm(&x.0) == self.b.fx.norm(&x.0) { x.0.clone() } else { continue };
                        (spot.clone(), self.jint(M::L(x.1), M::L(spot), Some(LEN)))
                    }
                    _ => continue,
                };
                q.push(Q { lo, hi, var: pred.1, f: pred.0 });
            }
            if q != a.q {
                self.changed = true;
            }
        }
        SeqV { c, len, ety: a.ety, tpl, q }
    }
    fn jtpl(&mut self, a: &SeqV, b: &SeqV) -> Tpl {
        if self.own.is_some() {
            return Tpl::Any;
        }
        let empty = |s: &State, x: &SeqV| s.fx.norm(&x.len).is_const() == Some(0);
        let ea = a.tpl == Tpl::Bot || (a.tpl == Tpl::Any && empty(&self.p, a));
        let eb = b.tpl == Tpl::Bot || (b.tpl == Tpl::Any && empty(&self.b, b));
        if ea && eb {
            return Tpl::Bot;
        }
        let (vp, vb): (Option<Rc<TplV>>, Option<Rc<TplV>>) = (
            match &a.tpl {
                Tpl::V(t) => Some(t.clone()),
                _ => None,
            },
            match &b.tpl {
                Tpl::V(t) => Some(t.clone()),
                _ => None,
            },
        );
        if (vp.is_none() && !ea) || (vb.is_none() && !eb) {
            if a.tpl != Tpl::Any {
                self.changed = true;
            }
            return Tpl::Any;
        }
        // a second list made of the same template has atoms of its own
        let vp = match vp {
            Some(t) if t.gs.iter().any(|g| self.fixed.contains_key(g)) => {
                let new: BTreeMap<T, Lin> = t.gs.iter().map(|g| {
                    let n = fresh("gen");
                    if let Some(r) = range(*g) {
                        set_range(n, r);
                    }
                    (*g, Lin::atom(n))
                }).collect();
                let fm = |a: T| new.get(&a).cloned();
                let tc = |d: &BTreeSet<T>| new.keys().any(|g| d.contains(g));
                let sb = Subst::new(&fm, &tc);
                let v = self.mem.subst_v(&t.v, &sb);
                Some(Rc::new(TplV { v, gs: new.values().map(|l| tl(l)).collect(), fs: t.fs.iter().map(|f| f.map(&|l| sb.lin(l))).collect() }))
            }
            x => x,
        };
        let id = self.tpls.len();
        self.tpls.push(TplCtx { pfs: vp.as_ref().map(|x| x.fs.clone()).unwrap_or_default(), bfs: vb.as_ref().map(|x| x.fs.clone()).unwrap_or_default() });
        self.own = Some(id);
        self.own_gs = vp.as_ref().map(|x| x.gs.iter().cloned().collect()).unwrap_or_default();
        let v = match (&vp, &vb) {
            (Some(x), Some(y)) => self.jv(&x.v, &y.v, Some(a.ety)),
            (None, Some(y)) => {
                self.changed = true;
                self.gen_bot(&y.v, true, Some(a.ety))
            }
            (Some(x), None) => self.gen_bot(&x.v, false, Some(a.ety)),
            _ => V::Undef,
        };
        self.own = None;
        self.own_gs.clear();
        // facts are filled in by finish(); remember the owner through a marker in gs
        let gs: Vec<T> = self.phis.iter().filter(|p| p.own == Some(id)).map(|p| p.t).collect();
        Tpl::V(Rc::new(TplV { v, gs, fs: vec![F::Eq(Lin { c: id as i128, m: vec![(u32::MAX, 1)] })] }))
    }
    fn gen_bot(&mut self, v: &V, bot_is_p: bool, ty: Option<Ty>) -> V {
        match v {
            V::Int(l) => {
                let r = self.rng(ty);
                let (p, b) = if bot_is_p { (M::Bot, M::L(l.clone())) } else { (M::L(l.clone()), M::Bot) };
                V::Int(self.jint(p, b, r))
            }
            V::Opq(t, ty) => {
                let l = lt(*t);
                let (p, b) = if bot_is_p { (M::Bot, M::L(l)) } else { (M::L(l), M::Bot) };
                V::Opq(tl(&self.jint(p, b, None)), *ty)
            }
            V::Adt(a) => {
                let tys = self.mem.field_tys(a.ty, a.var);
                let f = a.f.iter().enumerate().map(|(i, x)| self.gen_bot(x, bot_is_p, tys.as_ref().and_then(|t| t.get(i).cloned()))).collect();
                V::adt(a.ty, a.var, f)
            }
            V::Bool(F::T) | V::Bool(F::F) => v.clone(),
            V::Bool(_) => V::Bool(F::atom(fresh("gb"))),
            V::Seq(s) => {
                let l = lt(s.c);
                let (p, b) = if bot_is_p { (M::Bot, M::L(l)) } else { (M::L(l), M::Bot) };
                let c = tl(&self.jint(p, b, None));
                let l = s.len.clone();
                let len = if l.is_const().is_some() {
                    l
                } else {
                    let (p, b) = if bot_is_p { (M::Bot, M::L(l)) } else { (M::L(l), M::Bot) };
                    self.jint(p, b, Some(LEN))
                };
                V::Seq(Rc::new(SeqV { c, len, ety: s.ety, tpl: Tpl::Any, q: vec![] }))
            }
            _ => v.clone(),
        }
    }
    fn sub(&self, side_p: bool) -> HashMap<T, M> {
        let mut m = HashMap::default();
        for p in &self.phis {
            m.insert(p.t, if side_p { p.p.clone() } else { p.b.clone() });
        }
        m
    }
    /// Collects and filters facts; returns the joined fact base and the facts of each template.
    fn facts(&mut self, scope: &[Lin]) -> (Facts, Vec<Vec<F>>) {
        let mp = self.sub(true);
        let mb = self.sub(false);
        let nt = self.tpls.len();
        let owner: HashMap<T, usize> = self.phis.iter().filter_map(|p| p.own.map(|o| (p.t, o))).collect();
        // fact bases
        let base_p: Vec<Facts> = (0..nt)
            .map(|i| {
                let mut f = (*self.p.fx).clone();
                for x in &self.tpls[i].pfs {
                    f.assume(x);
                }
                f
            })
            .collect();
        let base_b: Vec<Facts> = (0..nt)
            .map(|i| {
                let mut f = (*self.b.fx).clone();
                for x in &self.tpls[i].bfs {
                    f.assume(x);
                }
                f
            })
            .collect();
        let mut cands: Vec<F> = vec![];
        let mut seen: HashSet<F> = HashSet::default();
        let push = |f: F, cands: &mut Vec<F>, seen: &mut HashSet<F>| {
            if f == F::T || f == F::F {
                return;
            }
            if seen.insert(f.clone()) {
                cands.push(f);
            }
        };
        let same = Rc::ptr_eq(&self.p.fx, &self.b.fx);
        // 1. facts of P as they are
        let pall = self.p.fx.all();
        // facts both sides have need no further proof
        let mut common = Facts::default();
        if !same {
            let free = |l: &Lin| {
                l.m.iter().all(|(a, _)| deep(*a).iter().all(|x| !mp.contains_key(x) && !mb.contains_key(x) && !owner.contains_key(x) && (!self.pset.contains(x) || self.fixed.contains_key(x))))
            };
            for (x, l) in &self.p.fx.eq {
                if self.b.fx.eq.get(x) == Some(l) && free(&Lin::atom(*x)) && free(l) {
                    common.eq.insert(*x, l.clone());
                } else {
                    push(F::Eq(Lin::atom(*x).sub(l)), &mut cands, &mut seen);
                }
            }
            let bs: HashSet<&Lin> = self.b.fx.le.iter().collect();
            for l in &self.p.fx.le {
                if bs.contains(l) && free(l) {
                    common.le.push(l.clone());
                } else {
                    push(F::Le(l.clone()), &mut cands, &mut seen);
                }
            }
            let bs: HashSet<&Lin> = self.b.fx.ne.iter().collect();
            for l in &self.p.fx.ne {
                if bs.contains(l) && free(l) {
                    common.ne.push(l.clone());
                } else {
                    push(F::Ne(l.clone()), &mut cands, &mut seen);
                }
            }
        }
        for i in 0..nt {
            for f in self.tpls[i].pfs.clone() {
                push(f, &mut cands, &mut seen);
            }
        }
        // 2. rebasing
        let ball = if same { pall.clone() } else { self.b.fx.all() };
        for side_p in [true, false] {
            let mut facts: Vec<F> = if side_p { pall.clone() } else { ball.clone() };
            let mut owners_present = false;
            for i in 0..nt {
                facts.extend(if side_p { self.tpls[i].pfs.clone() } else { self.tpls[i].bfs.clone() });
                owners_present = true;
            }
            let _ = owners_present;
            // carriers: atom -> expression over a phi
            let mut all: BTreeMap<T, Lin> = BTreeMap::new();
            let mut singles: Vec<(T, Lin)> = vec![];
            let mut consts: Vec<(i128, T)> = vec![];
            for p in &self.phis {
                let m = if side_p { &p.p } else { &p.b };
                if let M::L(l) = m {
                    if l.is_const().is_some() {
                        consts.push((l.c, p.t));
                        continue;
                    }
                    for (a, k) in &l.m {
                        if k.abs() != 1 || *a == p.t {
                            continue;
                        }
                        // p = k*a + rest  =>  a = k*(p - rest)
                        let mut rest = l.clone();
                        rest.m.retain(|x| x.0 != *a);
                        let e = Lin::atom(p.t).sub(&rest).scale(*k);
                        if rest.mentions(*a) {
                            continue;
                        }
                        singles.push((*a, e.clone()));
                        all.entry(*a).or_insert(e);
                    }
                }
            }
            for f in &facts {
                let mut d = BTreeSet::new();
                f.visit(&mut |l| d.extend(l.deep()));
                let hit: Vec<&(T, Lin)> = singles.iter().filter(|(a, _)| d.contains(a)).collect();
                if !hit.is_empty() {
                    for (a, e) in hit {
                        let (a, e) = (*a, e.clone());
                        let fm = |t: T| if t == a { Some(e.clone()) } else { None };
                        let tc = |s: &BTreeSet<T>| s.contains(&a);
                        let sb = Subst::new(&fm, &tc);
                        push(f.map(&|l| sb.lin(l)), &mut cands, &mut seen);
                    }
                    let fm = |t: T| all.get(&t).cloned();
                    let tc = |s: &BTreeSet<T>| all.keys().any(|k| s.contains(k));
                    let sb = Subst::new(&fm, &tc);
                    push(f.map(&|l| sb.lin(l)), &mut cands, &mut seen);
                }
                // constants appearing as offsets
                for (k, p) in &consts {
                    for g in offset_rebase(f, *k, *p) {
                        push(g, &mut cands, &mut seen);
                    }
                }
            }
        }
        // 3. phi against everything in scope
        let zero = Lin::k(0);
        let mut qs: Vec<Lin> = scope.to_vec();
        let open: Vec<Lin> = scope.iter().filter(|l| l.is_const().is_none()).cloned().collect();
        let scope = &open[..];
        qs.push(zero);
        for p in &self.phis {
            if p.p == M::Top || p.b == M::Top {
                continue;
            }
            if range(p.t).is_none() {
                continue; // contents, opaque values
            }
            let pl = Lin::atom(p.t);
            for q in qs.iter().cloned().chain(self.phis.iter().filter(|o| o.t != p.t && range(o.t).is_some() && o.p != M::Top && o.b != M::Top).map(|o| Lin::atom(o.t))) {
                let d = pl.sub(&q);
                if d.is_const().is_some() {
                    continue;
                }
                let dp = self.sval(&d, &mp).map(|l| self.p.fx.norm(&l));
                let db = self.sval(&d, &mb).map(|l| self.b.fx.norm(&l));
                let cp = dp.as_ref().and_then(|l| l.is_const());
                let cb = db.as_ref().and_then(|l| l.is_const());
                if let (Some(x), Some(y)) = (cp, cb) {
                    if x == y {
                        push(F::Eq(d.addc(-x)), &mut cands, &mut seen);
                        continue;
                    }
                }
                let mut hs: Vec<i128> = vec![];
                let mut ls: Vec<i128> = vec![];
                for c in [cp, cb].iter().flatten() {
                    hs.push(*c);
                    ls.push(*c);
                }
                if hs.is_empty() {
                    hs = vec![-1, 0];
                    ls = vec![1, 0];
                } else if !hs.contains(&0) {
                    hs.push(0);
                    ls.push(0);
                }
                for c in hs {
                    push(F::le0(d.addc(-c)), &mut cands, &mut seen);
                }
                for c in ls {
                    push(F::le0(d.neg().addc(c)), &mut cands, &mut seen);
                }
            }
            // equality with the value it had on one side, when that is meaningful on both
            for m in [&p.p, &p.b] {
                if let M::L(l) = m {
                    if !self.has_old(l) {
                        push(F::eq0(pl.sub(l)), &mut cands, &mut seen);
                    }
                }
            }
        }
        for f in self.affine(scope) {
            push(f, &mut cands, &mut seen);
        }
        // filter
        let mut out = if same { (*self.p.fx).clone() } else { common };
        let mut outs: Vec<Vec<F>> = vec![vec![]; nt];
        let mut order: Vec<(usize, F)> = cands.into_iter().enumerate().collect();
        order.sort_by_key(|(i, f)| {
            (
                match f {
                    F::Eq(_) => 0,
                    F::Le(_) => 1,
                    _ => 2,
                },
                *i,
            )
        });
        for (_, f) in order {
            let mut own: BTreeSet<usize> = BTreeSet::new();
            let mut bad = false;
            f.visit(&mut |l| {
                for x in l.deep() {
                    if let Some(o) = owner.get(&x) {
                        own.insert(*o);
                    }
                    if self.pset.contains(&x) && !self.fixed.contains_key(&x) {
                        bad = true;
                    }
                }
            });
            if bad || own.len() > 1 {
                continue;
            }
            let o = own.iter().next().cloned();
            if same && o.is_none() && !self.phis.iter().any(|p| p.own.is_none()) {
                continue;
            }
            let bp: &Facts = match o {
                Some(i) => &base_p[i],
                None => &self.p.fx,
            };
            let bb: &Facts = match o {
                Some(i) => &base_b[i],
                None => &self.b.fx,
            };
            // already implied?
            let _ = &o;
            let okp = match self.sform(&f, &mp) {
                None => true,
                Some(None) => false,
                Some(Some(g)) => bp.implies(&g),
            };
            if !okp {
                continue;
            }
            let okb = match self.sform(&f, &mb) {
                None => true,
                Some(None) => false,
                Some(Some(g)) => bb.implies(&g),
            };
            if !okb {
                continue;
            }
            match o {
                Some(i) => outs[i].push(f),
                None => {
                    out.assume(&f);
                }
            }
        }
        // drop template facts implied by the others
        for v in outs.iter_mut() {
            let mut acc = out.clone();
            let mut keep = vec![];
            for f in v.iter() {
                if !acc.implies(f) {
                    acc.assume(f);
                    keep.push(f.clone());
                }
            }
            *v = keep;
        }
        (out, outs)
    }
    /// Affine equalities among the integers of the result that hold on both sides: linear
    /// dependencies of their values on the two sides taken together.
    fn affine(&self, scope: &[Lin]) -> Vec<F> {
        let phis: Vec<&Phi> = self.phis.iter().filter(|p| p.own.is_none() && range(p.t).is_some() && p.p != M::Top && p.b != M::Top && p.p != M::Bot && p.b != M::Bot).collect();
        if phis.len() < 2 || phis.len() > 40 {
            return vec![];
        }
        let isphi: HashSet<T> = self.phis.iter().map(|p| p.t).collect();
        // coordinates: (side, atom); None is the difference of the constants
        type Row = BTreeMap<Option<(bool, T)>, i128>;
        let mut vars: Vec<(Lin, Lin, Lin)> = vec![];
        let mut used: BTreeSet<T> = BTreeSet::new();
        for p in &phis {
            if let (M::L(x), M::L(y)) = (&p.p, &p.b) {
                used.extend(self.p.fx.norm(x).m.iter().map(|a| a.0));
                used.extend(self.b.fx.norm(y).m.iter().map(|a| a.0));
            }
        }
        let mut sa: BTreeSet<T> = BTreeSet::new();
        for l in scope {
            for (a, _) in &l.m {
                if !deep(*a).iter().any(|x| isphi.contains(x) || self.is_old(*x)) {
                    sa.insert(*a);
                }
            }
        }
        for a in sa {
            let (x, y) = (self.p.fx.norm(&Lin::atom(a)), self.b.fx.norm(&Lin::atom(a)));
            if x.m.iter().chain(y.m.iter()).any(|z| used.contains(&z.0)) {
                vars.push((Lin::atom(a), x, y));
            }
        }
        for p in &phis {
            if let (M::L(x), M::L(y)) = (&p.p, &p.b) {
                vars.push((Lin::atom(p.t), self.p.fx.norm(x), self.b.fx.norm(y)));
            }
        }
        let mut rows: Vec<(Option<(bool, T)>, Row, Lin, i128)> = vec![];
        let mut out = vec![];
        for (v, x, y) in vars {
            let mut row: Row = BTreeMap::new();
            for (a, k) in &x.m {
                row.insert(Some((true, *a)), *k);
            }
            for (a, k) in &y.m {
                row.insert(Some((false, *a)), *k);
            }
            if x.c != y.c {
                row.insert(None, x.c - y.c);
            }
            // comb - c has the value of row
            let (mut comb, mut c) = (v, x.c);
            let mut ok = true;
            for (piv, r, rc, rcc) in &rows {
                if let Some(k) = row.get(piv).cloned() {
                    let kk = r[piv];
                    let g = gcd(k, kk);
                    let (m1, m2) = (kk / g, k / g);
                    let mut n: Row = BTreeMap::new();
                    for (q, w) in &row {
                        n.insert(*q, w * m1);
                    }
                    for (q, w) in r {
                        *n.entry(*q).or_insert(0) -= w * m2;
                    }
                    n.retain(|_, w| *w != 0);
                    row = n;
                    comb = comb.scale(m1).add_scaled(rc, -m2);
                    c = c * m1 - rcc * m2;
                    if c.abs() > 1 << 90 || row.values().any(|w| w.abs() > 1 << 60) {
                        ok = false;
                        break;
                    }
                }
            }
            if !ok {
                continue;
            }
            match row.keys().next().cloned() {
                None => {
                    let l = comb.addc(-c);
                    if l.is_const().is_none() && l.m.iter().all(|x| x.1.abs() < 1 << 40) {
                        out.push(F::eq0(l));
                    }
                }
                Some(piv) => rows.push((piv, row, comb, c)),
            }
        }
        out
    }
    // None: undefined on that side (Bot or Top)
    fn sval(&self, l: &Lin, m: &HashMap<T, M>) -> Option<Lin> {
        match self.sform(&F::Eq(l.clone()), m) {
            Some(Some(F::Eq(_))) | Some(Some(F::T)) | Some(Some(F::F)) => {}
            _ => return None,
        }
        let fm = |t: T| match m.get(&t) {
            Some(M::L(l)) => Some(l.clone()),
            _ => None,
        };
        let tc = |s: &BTreeSet<T>| s.iter().any(|x| m.contains_key(x));
        let sb = Subst::new(&fm, &tc);
        Some(sb.lin(l))
    }
    // None: vacuous (mentions Bot); Some(None): unusable (Top); Some(Some(f)): the instance
    fn sform(&self, f: &F, m: &HashMap<T, M>) -> Option<Option<F>> {
        let mut bot = false;
        let mut top = false;
        f.visit(&mut |l| {
            for x in l.deep() {
                match m.get(&x) {
                    Some(M::Bot) => bot = true,
                    Some(M::Top) => top = true,
                    _ => {}
                }
            }
        });
        if top {
            return Some(None);
        }
        if bot {
            return None;
        }
        let fm = |t: T| match m.get(&t) {
            Some(M::L(l)) => Some(l.clone()),
            _ => None,
        };
        let tc = |s: &BTreeSet<T>| s.iter().any(|x| m.contains_key(x));
        let sb = Subst::new(&fm, &tc);
        Some(Some(f.map(&|l| sb.lin(l))))
    }
}
fn canon_q(q: &Q) -> (F, T) {
    let v = app("qv", vec![]);
    set_range(v, (0, 255));
    let old = q.var;
    let fm = |t: T| if t == old { Some(Lin::atom(v)) } else { None };
    let tc = |s: &BTreeSet<T>| s.contains(&old);
    let sb = Subst::new(&fm, &tc);
    (q.f.map(&|l| sb.lin(l)), v)
}
// union of the (adjacent) ranges on which the predicate is known
fn merged_range(s: &State, qs: &[Q], pred: &F) -> Option<(Lin, Lin)> {
    let mut rs: Vec<(Lin, Lin)> = qs.iter().filter(|q| canon_q(q).0 == *pred).map(|q| (s.fx.norm(&q.lo), s.fx.norm(&q.hi))).collect();
    if rs.is_empty() {
        return None;
    }
    let mut cur = rs.remove(0);
    let mut ch = true;
    while ch {
        ch = false;
        for i in 0..rs.len() {
            if rs[i].0 == cur.1 {
                cur.1 = rs.remove(i).1;
                ch = true;
                break;
            }
            if rs[i].1 == cur.0 {
                cur.0 = rs.remove(i).0;
                ch = true;
                break;
            }
        }
    }
    Some(cur)
}
// facts about constant positions near k, restated relative to p (which equals k)
fn offset_rebase(f: &F, k: i128, p: T) -> Vec<F> {
    let (F::Eq(l) | F::Le(l) | F::Ne(l)) = f else { return vec![] };
    let mut any = false;
    let mut r = Lin::k(l.c);
    for (a, c) in &l.m {
        let mut atom = *a;
        if let K::App(s, args) = kind(*a) {
            if s == "sel" || s == "hexok" || s == "pred" {
                let mut n = args.clone();
                for x in n.iter_mut() {
                    if let Some(y) = rebase_pos(*x, k, p) {
                        *x = y;
                        any = true;
                    }
                }
                atom = mk(s, n, range(*a));
            }
        }
        r = r.add_scaled(&lt(atom), *c);
    }
    if !any {
        return vec![];
    }
    vec![match f {
        F::Eq(_) => F::Eq(r),
        F::Le(_) => F::Le(r),
        _ => F::Ne(r),
    }]
}
fn rebase_pos(x: T, k: i128, p: T) -> Option<T> {
    match kind(x) {
        K::Lin(l) if l.is_const().is_some() && (l.c - k).abs() <= 64 => Some(tl(&Lin::atom(p).addc(l.c - k))),
        K::App(s, a) if s == "sl" => {
            let o = rebase_pos(a[1], k, p)?;
            Some(app("sl", vec![a[0], o, a[2]]))
        }
        _ => None,
    }
}

/// Joins `b` into `p`. Returns the joined state and whether it differs from `p`.
pub fn join(mem: &mut Mem, p: &State, b: &State, pset: &HashSet<T>, tys: &dyn Fn(u32, u32) -> Option<Ty>) -> (State, bool, HashSet<T>) {
    let mut j = Joiner {
        mem,
        p: p.clone(),
        b: b.clone(),
        pset,
        phis: vec![],
        memo: HashMap::default(),
        fixed: HashMap::default(),
        tpls: vec![],
        own: None,
        own_gs: HashSet::default(),
        changed: false,
        heap_done: BTreeMap::new(),
        new_heap: vec![],
    };
    let mut out = State::new();
    out.gh = p.gh.clone();
    let n = p.fr.len().min(b.fr.len());
    for d in 0..n {
        if Rc::ptr_eq(&p.fr[d], &b.fr[d]) && pset.is_empty() {
            out.fr.push(p.fr[d].clone());
            continue;
        }
        let m = p.fr[d].len().min(b.fr[d].len());
        let mut f = Vec::with_capacity(m);
        for l in 0..m {
            let ty = tys(d as u32, l as u32);
            let v = j.jv(&p.fr[d][l], &b.fr[d][l], ty);
            f.push(v);
        }
        out.fr.push(Rc::new(f));
    }
    let mut gv = BTreeMap::new();
    for (k, v) in p.gv.iter() {
        if let Some(w) = b.gv.get(k) {
            let x = match (v, w) {
                // a count, to be related to other numbers
                (V::Int(a), V::Int(b)) if k.starts_with('#') => V::Int(j.jint(M::L(a.clone()), M::L(b.clone()), Some((-(1 << 100), 1 << 100)))),
                _ => j.jv(v, w, None),
            };
            gv.insert(k.clone(), x);
        } else {
            j.changed = true;
        }
    }
    out.gv = Rc::new(gv);
    let keys: BTreeSet<T> = p.heap.keys().chain(b.heap.keys()).cloned().collect();
    let mut heap = BTreeMap::new();
    let (mut pr, mut br): (Option<BTreeSet<T>>, Option<BTreeSet<T>>) = (None, None);
    for k in keys {
        if j.heap_done.contains_key(&k) {
            continue;
        }
        let (vp, vb) = (p.heap.get(&k).cloned(), b.heap.get(&k).cloned());
        let v = match (vp, vb) {
            (Some(x), Some(y)) => {
                let ty = j.mem.heap_ty.get(&k).cloned();
                j.jv(&x, &y, ty)
            }
            (x, y) => {
                if matches!(kind(k), K::Fresh(..)) {
                    // a cell the other side cannot reach needs no place in the result
                    let other = if x.is_none() {
                        pr.get_or_insert_with(|| all_roots(p))
                    } else {
                        br.get_or_insert_with(|| all_roots(b))
                    };
                    if matches!(kind(k), K::Fresh(_, "tmp")) || !other.contains(&k) {
                        continue;
                    }
                }
                let ty = j.mem.heap_ty.get(&k).cloned();
                let dx = match x {
                    Some(v) => v,
                    None => j.mem.root(p, Root_::Heap(k)),
                };
                let dy = match y {
                    Some(v) => v,
                    None => j.mem.root(b, Root_::Heap(k)),
                };
                j.jv(&dx, &dy, ty)
            }
        };
        heap.insert(k, v);
    }
    let nh = std::mem::take(&mut j.new_heap);
    for (k, v) in nh {
        heap.insert(k, v);
    }
    out.heap = Rc::new(heap);
    // scope: integers in the top frames and what they reference
    let mut scope: Vec<Lin> = vec![];
    let top = out.fr.len();
    let mut seen = HashSet::default();
    for d in top.saturating_sub(2)..top {
        for v in out.fr[d].iter() {
            scope_ints(j.mem, &out, v, &mut scope, &mut seen, 0);
        }
    }
    for v in out.gv.values() {
        scope_ints(j.mem, &out, v, &mut scope, &mut seen, 0);
    }
    if j.changed && std::env::var("SA_JD").is_ok() {
        eprintln!("CHANGED value phis {:?}", j.phis.iter().map(|p| (show(p.t), format!("{:?} {:?}", p.p, p.b))).collect::<Vec<_>>());
    }
    let (fx, tfs) = j.facts(&scope);
    // changed facts?
    let mut changed = j.changed;
    if !changed {
        for f in p.fx.all() {
            if !fx.implies(&f) {
                // facts about dead things do not matter for stability, but keep it simple
                changed = true;
                if std::env::var("SA_JD").is_ok() {
                    eprintln!("CHANGED lost fact {}", showf(&f));
                }
                break;
            }
        }
    }
    out.fx = Rc::new(fx);
    if !tfs.is_empty() {
        let mut tch = false;
        for f in out.fr.iter_mut() {
            let needs = f.iter().any(has_marker);
            if needs {
                let v: Vec<V> = f.iter().map(|x| fill_v(x, &tfs)).collect();
                *f = Rc::new(v);
            }
        }
        let h: BTreeMap<T, V> = out.heap.iter().map(|(k, v)| (*k, if has_marker(v) { fill_v(v, &tfs) } else { v.clone() })).collect();
        out.heap = Rc::new(h);
        let g: BTreeMap<String, V> = out.gv.iter().map(|(k, v)| (k.clone(), if has_marker(v) { fill_v(v, &tfs) } else { v.clone() })).collect();
        out.gv = Rc::new(g);
        for (i, fs) in tfs.iter().enumerate() {
            for f in &j.tpls[i].pfs {
                let mut acc = (*out.fx).clone();
                for x in fs {
                    acc.assume(x);
                }
                if !acc.implies(f) {
                    tch = true;
                }
            }
        }
        changed |= tch;
    }
    let ps: HashSet<T> = j.phis.iter().filter(|p| p.own.is_none()).map(|p| p.t).collect();
    (out, changed, ps)
}
fn all_roots(s: &State) -> BTreeSet<T> {
    let mut lv = BTreeSet::new();
    let mut rt = vec![];
    for f in &s.fr {
        for v in f.iter() {
            crate::mio::v_leaves(v, &mut lv, &mut rt);
        }
    }
    for v in s.gv.values().chain(s.heap.values()) {
        crate::mio::v_leaves(v, &mut lv, &mut rt);
    }
    rt.into_iter().collect()
}
/// Adds an element to a smashed container template within one state.
pub fn push_tpl(mem: &mut Mem, st: &State, seq: &SeqV, v: &V) -> Tpl {
    if seq.tpl == Tpl::Bot || st.fx.norm(&seq.len).is_const() == Some(0) {
        return Tpl::V(Rc::new(TplV { v: v.clone(), gs: vec![], fs: vec![] }));
    }
    if seq.tpl == Tpl::Any {
        return Tpl::Any;
    }
    let e = HashSet::default();
    let mut j = Joiner {
        mem,
        p: st.clone(),
        b: st.clone(),
        pset: &e,
        phis: vec![],
        memo: HashMap::default(),
        fixed: HashMap::default(),
        tpls: vec![],
        own: None,
        own_gs: HashSet::default(),
        changed: false,
        heap_done: BTreeMap::new(),
        new_heap: vec![],
    };
    let b = SeqV { tpl: Tpl::V(Rc::new(TplV { v: v.clone(), gs: vec![], fs: vec![] })), ..seq.clone() };
    let t = j.jtpl(seq, &b);
    let mut scope = vec![];
    let mut seen = HashSet::default();
    for d in st.fr.len().saturating_sub(2)..st.fr.len() {
        for x in st.fr[d].iter() {
            scope_ints(j.mem, st, x, &mut scope, &mut seen, 0);
        }
    }
    let (_, tfs) = j.facts(&scope);
    match fill_v(&V::Seq(Rc::new(SeqV { tpl: t, ..seq.clone() })), &tfs) {
        V::Seq(s) => s.tpl.clone(),
        _ => Tpl::Any,
    }
}
fn marker(t: &TplV) -> Option<usize> {
    match t.fs.first() {
        Some(F::Eq(l)) if l.m.len() == 1 && l.m[0].0 == u32::MAX => Some(l.c as usize),
        _ => None,
    }
}
fn has_marker(v: &V) -> bool {
    match v {
        V::Adt(a) => a.f.iter().any(has_marker),
        V::Seq(s) => matches!(&s.tpl, Tpl::V(t) if marker(t).is_some()),
        V::Slice(s) => matches!(&s.seq.tpl, Tpl::V(t) if marker(t).is_some()),
        _ => false,
    }
}
fn fill_seq(s: &SeqV, tfs: &[Vec<F>]) -> SeqV {
    let mut s = s.clone();
    if let Tpl::V(t) = &s.tpl {
        if let Some(i) = marker(t) {
            s.tpl = Tpl::V(Rc::new(TplV { v: t.v.clone(), gs: t.gs.clone(), fs: tfs[i].clone() }));
        }
    }
    s
}
fn fill_v(v: &V, tfs: &[Vec<F>]) -> V {
    match v {
        V::Adt(a) => V::adt(a.ty, a.var, a.f.iter().map(|x| fill_v(x, tfs)).collect()),
        V::Seq(s) => V::Seq(Rc::new(fill_seq(s, tfs))),
        V::Slice(s) => V::Slice(Rc::new(SliceV { seq: Rc::new(fill_seq(&s.seq, tfs)), off: s.off.clone(), len: s.len.clone(), loc: s.loc.clone() })),
        _ => v.clone(),
    }
}
pub fn scope_ints(mem: &mut Mem, st: &State, v: &V, out: &mut Vec<Lin>, seen: &mut HashSet<T>, depth: u32) {
    if depth > 5 || out.len() > 60 {
        return;
    }
    let mut add = |l: &Lin| {
        let l = st.fx.norm(l);
        if l.is_const().is_none() && seen.insert(tl(&l)) {
            out.push(l);
        }
    };
    match v {
        V::Int(l) => add(l),
        V::Seq(s) => add(&s.len),
        V::Slice(s) => {
            add(&s.off);
            add(&s.len);
            add(&s.seq.len);
            add(&s.off.add(&s.len));
        }
        V::Adt(a) => {
            // the end of a range its start moves towards
            if let (Some(V::Int(l)), "std::ops::Range") = (a.f.get(1), mem.prog.adt_path(a.ty)) {
                let l = st.fx.norm(l);
                if l.is_const().map_or(false, |x| x > 0) && seen.insert(tl(&l)) {
                    out.push(l);
                }
            }
            for x in a.f.clone() {
                scope_ints(mem, st, &x, out, seen, depth + 1);
            }
        }
        V::Ref(p) => {
            if let Root_::Heap(t) = p.root {
                if !seen.insert(t) {
                    return;
                }
            }
            let mut s2 = st.clone();
            let x = mem.read(&mut s2, p);
            // opaque structs: their integer fields
            if let V::Opq(t, ty) = &x {
                if mem.prog.is_local_adt(*ty) && !mem.prog.is_enum(*ty) {
                    let _ = t;
                    let e = mem.expand(&x, 0);
                    scope_ints(mem, st, &e, out, seen, depth + 1);
                    return;
                }
            }
            scope_ints(mem, st, &x, out, seen, depth + 1);
        }
        _ => {}
    }
}
