// Models of library functions. Each returns the successor states with the result, or None
// when the function is not modelled (its body is then inlined, or it is treated as unknown).
use crate::exec::*;
use crate::facts::Facts;
use crate::join;
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::collections::{BTreeSet};
use crate::fx::{HashSet};
use std::rc::Rc;

pub type Outs = Vec<(State, V)>;
pub const MAXLEN: i128 = (1i128 << 63) - 1;

pub fn one(st: &State, v: V) -> Option<Outs> {
    Some(vec![(st.clone(), v)])
}
pub fn targ(e: &Engine, ty: Ty, i: usize) -> Ty {
    match e.prog.k(ty) {
        TK::Adt { args, .. } => args.get(i).cloned().unwrap_or(e.mem.u8_ty),
        TK::Ref(t, _) | TK::Ptr(t, _) => *t,
        _ => e.mem.u8_ty,
    }
}
pub fn unit(_e: &Engine, ty: Ty) -> V {
    V::adt(ty, 0, vec![])
}
pub fn some(rty: Ty, v: V) -> V {
    V::adt(rty, 1, vec![v])
}
pub fn none(rty: Ty) -> V {
    V::adt(rty, 0, vec![])
}
pub fn okv(rty: Ty, v: V) -> V {
    V::adt(rty, 0, vec![v])
}
pub fn errv(rty: Ty, v: V) -> V {
    V::adt(rty, 1, vec![v])
}
/// Strips references.
pub fn peel(e: &Engine, mut ty: Ty) -> Ty {
    for _ in 0..6 {
        match e.prog.k(ty) {
            TK::Ref(t, _) | TK::Ptr(t, _) => ty = *t,
            _ => break,
        }
    }
    ty
}
pub fn path_of(e: &Engine, ty: Ty) -> String {
    e.prog.adt_path(peel(e, ty)).to_string()
}
pub fn is_seq_ty(e: &Engine, ty: Ty) -> bool {
    e.mem.seq_elem(peel(e, ty)).is_some()
}
pub fn slice_v(seq: Rc<SeqV>, loc: Option<Ptr>) -> V {
    let len = seq.len.clone();
    V::Slice(Rc::new(SliceV { seq, off: Lin::k(0), len, loc }))
}
pub fn ulen(hint: &str) -> Lin {
    Lin::atom(ranged(fresh(hint), (0, MAXLEN)))
}
impl Engine {
    pub fn sl(&mut self, st: &mut State, v: &V) -> Rc<SliceV> {
        match self.mem.as_slice(st, v) {
            Some(s) => s,
            None => {
                let c = fresh("slice");
                let len = lt(len_t(c));
                let e = self.mem.u8_ty;
                Rc::new(SliceV { seq: Rc::new(SeqV { c, len: len.clone(), ety: e, tpl: Tpl::Any, q: vec![] }), off: Lin::k(0), len, loc: None })
            }
        }
    }
    pub fn content(&mut self, st: &mut State, v: &V) -> T {
        let s = self.sl(st, v);
        self.mem.slice_content(st, &s)
    }
    pub fn owned(&mut self, st: &mut State, s: &SliceV) -> V {
        let c = self.mem.slice_content(st, s);
        V::Seq(Rc::new(SeqV { c, len: st.fx.norm(&s.len), ety: s.seq.ety, tpl: s.seq.tpl.clone(), q: shift_q(&s.seq.q, &s.off) }))
    }
    pub fn view(&mut self, c: T) -> V {
        let len = lt(len_t(c));
        let e = self.mem.u8_ty;
        slice_v(Rc::new(SeqV { c, len, ety: e, tpl: Tpl::Any, q: vec![] }), None)
    }
    pub fn bytes_of(&mut self, c: T) -> V {
        let len = lt(len_t(c));
        let e = self.mem.u8_ty;
        V::Seq(Rc::new(SeqV { c, len, ety: e, tpl: Tpl::Any, q: vec![] }))
    }
    /// A value of a sequence type, or a reference to one, with the given content.
    pub fn as_seq_ty(&mut self, st: &mut State, c: T, ty: Ty) -> V {
        match self.prog.k(ty).clone() {
            TK::Ref(..) => self.view(c),
            _ => {
                let _ = st;
                self.bytes_of(c)
            }
        }
    }
    pub fn int_arg(&mut self, st: &mut State, v: &V) -> Lin {
        let v = self.mem.deref_all(st, v);
        let l = self.as_int(&v);
        st.fx.norm(&l)
    }
    /// Both outcomes of a test identified by a term.
    pub fn fork_bool(&mut self, st: &State, t: T, yes: &[F]) -> Outs {
        set_range(t, (0, 1));
        let mut r = vec![];
        let mut a = st.clone();
        let mut ok = a.assume(&F::Eq(Lin::atom(t).addc(-1)));
        for f in yes {
            ok = ok && a.assume(f);
        }
        if ok {
            r.push((a, V::Bool(F::T)));
        }
        let mut b = st.clone();
        if b.assume(&F::Eq(Lin::atom(t))) {
            r.push((b, V::Bool(F::F)));
        }
        r
    }
    pub fn fork2(&mut self, st: &State, f: &F) -> (Option<State>, Option<State>) {
        let mut a = st.clone();
        let a = if a.assume(f) { Some(a) } else { None };
        let mut b = st.clone();
        let b = if b.assume(&f.not()) { Some(b) } else { None };
        (a, b)
    }
    /// Bounds of a range argument: (from, to); `what` names the obligation.
    pub fn range_arg(&mut self, st: &mut State, idx: &V, ity: Ty, len: &Lin) -> Option<(Lin, Lin)> {
        let p = path_of(self, ity);
        let v = self.mem.deref_all(st, idx);
        let v = match &v {
            V::Opq(..) => self.mem.expand(&v, 0),
            x => x.clone(),
        };
        let f = |i: usize| -> V {
            match &v {
                V::Adt(a) => a.f.get(i).cloned().unwrap_or(V::Undef),
                _ => V::Undef,
            }
        };
        Some(match p.as_str() {
            "std::ops::Range" | "core::ops::Range" => (self.as_int(&f(0)), self.as_int(&f(1))),
            "std::ops::RangeFrom" => (self.as_int(&f(0)), len.clone()),
            "std::ops::RangeTo" => (Lin::k(0), self.as_int(&f(0))),
            "std::ops::RangeFull" => (Lin::k(0), len.clone()),
            "std::ops::RangeInclusive" => (self.as_int(&f(0)), self.as_int(&f(1)).addc(1)),
            "std::ops::RangeToInclusive" => (Lin::k(0), self.as_int(&f(0)).addc(1)),
            _ => return None,
        })
    }
    pub fn subslice(&mut self, st: &State, s: &SliceV, lo: &Lin, hi: &Lin) -> V {
        V::Slice(Rc::new(SliceV { seq: s.seq.clone(), off: st.fx.norm(&s.off.add(lo)), len: st.fx.norm(&hi.sub(lo)), loc: s.loc.clone() }))
    }
    pub fn elem_ref(&mut self, st: &mut State, s: &SliceV, i: &Lin) -> V {
        match &s.loc {
            Some(p) => V::Ref(p.push(Pj::El(st.fx.norm(&s.off.add(i))))),
            None => {
                let v = self.mem.slice_elem(st, s, i);
                self.mem.temp_ref(st, v, s.seq.ety)
            }
        }
    }
    pub fn index(&mut self, st: &mut State, base: &V, idx: &V, ity: Ty, rty: Ty) -> Option<Outs> {
        let s = self.sl(st, base);
        if let TK::Int { .. } = self.prog.k(peel(self, ity)) {
            let i = self.int_arg(st, idx);
            let c = F::lt(&i, &s.len);
            self.panic_check(st, "index in bounds", &c);
            let v = self.elem_ref(st, &s, &i);
            return one(st, v);
        }
        let len = s.len.clone();
        let (lo, hi) = self.range_arg(st, idx, ity, &len)?;
        let c = F::and(&F::le(&lo, &hi), &F::le(&hi, &len));
        self.panic_check(st, "slice range in bounds", &c);
        let _ = rty;
        let v = self.subslice(st, &s, &lo, &hi);
        self.emit(st, "slice", vec![base.clone(), v.clone()], "");
        one(st, v)
    }
    /// Replaces the sequence stored at a place.
    pub fn put_seq(&mut self, st: &mut State, v: &V, n: SeqV) {
        let mut cur = v.clone();
        for _ in 0..6 {
            match &cur {
                V::Ref(p) => {
                    let x = self.mem.read(st, p);
                    match x {
                        V::Ref(_) => cur = x,
                        _ => {
                            self.mem.write(st, &p.clone(), V::Seq(Rc::new(n)));
                            return;
                        }
                    }
                }
                V::Slice(s) => {
                    if let Some(p) = &s.loc {
                        self.mem.write(st, &p.clone(), V::Seq(Rc::new(n)));
                    }
                    return;
                }
                _ => return,
            }
        }
    }
    pub fn seq_at(&mut self, st: &mut State, v: &V) -> SeqV {
        let s = self.sl(st, v);
        let mut q = (*s.seq).clone();
        q.len = st.fx.norm(&q.len);
        q
    }
    /// The bytes behind a mutable slice are overwritten with these.
    pub fn overwrite(&mut self, st: &mut State, v: &V, src: T) {
        let s = match self.mem.as_slice(st, v) {
            Some(s) => s,
            None => return self.clobber(st, v),
        };
        let old = s.seq.c;
        let whole = s.off.is_const() == Some(0) && st.fx.norm(&s.len) == st.fx.norm(&s.seq.len);
        self.clobber(st, v);
        if let Some(p) = &s.loc {
            if let V::Seq(q) = self.mem.read(st, p) {
                let mut n = (*q).clone();
                let len = st.fx.norm(&s.len);
                n.c = if whole { src } else { app("splice", vec![old, tl(&s.off), tl(&len), src]) };
                self.mem.write(st, p, V::Seq(Rc::new(n)));
            }
        }
    }
    /// The bytes behind a mutable slice are overwritten with unknown data.
    pub fn clobber(&mut self, st: &mut State, v: &V) {
        self.mem.havoc_behind_keep(st, v);
    }
    /// Succeeds with one of the values, or fails with a fresh error.
    pub fn fallible(&mut self, st: &State, rty: Ty, op: &str, args: &[V], ok: V, okf: &[F]) -> Outs {
        let ety = targ(self, rty, 1);
        let mut r = vec![];
        let mut a = st.clone();
        let mut good = true;
        for f in okf {
            good = good && a.assume(f);
        }
        if good {
            let mut vs = vec![ok.clone()];
            vs.extend(args.iter().cloned());
            self.emit(&mut a, "ok", vs, op);
            if !a.fx.bot {
                r.push((a, okv(rty, ok)));
            }
        }
        let mut b = st.clone();
        let er = self.mem.fresh("err", ety);
        let mut vs = vec![er.clone()];
        vs.extend(args.iter().cloned());
        self.emit(&mut b, "err", vs, op);
        if !b.fx.bot {
            r.push((b, errv(rty, er)));
        }
        r
    }
}
impl Mem {
    /// Forgets the content (not the length) of the sequence behind a reference.
    pub fn havoc_behind_keep(&mut self, st: &mut State, v: &V) {
        if let Some(s) = self.as_slice(st, v) {
            if let Some(p) = &s.loc {
                if let V::Seq(q) = self.read(st, p) {
                    let mut n = (*q).clone();
                    n.c = fresh("data");
                    n.q.clear();
                    if n.tpl != Tpl::Bot {
                        n.tpl = Tpl::Any;
                    }
                    self.write(st, p, V::Seq(Rc::new(n)));
                }
            }
        }
    }
}
fn last(p: &str) -> &str {
    p.rsplit("::").next().unwrap_or(p)
}

pub fn model(e: &mut Engine, st: &mut State, c: &Callee, inst: &str, a: &[V], tys: &[Ty], rty: Ty) -> Option<Outs> {
    // functions of the analysed crate are inlined
    if let Some(i) = c.inst {
        if e.prog.fns[i].local && e.prog.fns[i].body.is_some() {
            return None;
        }
    }
    let d = c.decl.as_str();
    let p = if inst.is_empty() { d } else { inst };
    if let Some(r) = num(e, st, d, p, a, tys, rty) {
        return Some(r);
    }
    if let Some(r) = crate::mio::io(e, st, c, d, p, a, tys, rty) {
        return Some(r);
    }
    if let Some(r) = seqs(e, st, c, d, p, a, tys, rty) {
        return Some(r);
    }
    if let Some(r) = crate::miter::iters(e, st, d, p, a, tys, rty) {
        return Some(r);
    }
    misc(e, st, c, d, p, a, tys, rty)
}

fn num(e: &mut Engine, st: &mut State, d: &str, p: &str, a: &[V], tys: &[Ty], rty: Ty) -> Option<Outs> {
    if let Some(rest) = p.strip_prefix("core::num::<impl ") {
        let m = last(rest);
        let tn = rest.split('>').next().unwrap_or("usize");
        let ty = e.prog.by_s.get(tn).cloned().unwrap_or(e.mem.usize_ty);
        let (lo, hi) = e.prog.int_range(ty)?;
        let fits = |l: &Lin| F::and(&F::le(&Lin::k(lo), l), &F::le(l, &Lin::k(hi)));
        if let Some((mode, op)) = m.split_once('_') {
            let mop = match op {
                "add" => "Add",
                "sub" => "Sub",
                "mul" => "Mul",
                _ => "",
            };
            if !mop.is_empty() && matches!(mode, "checked" | "saturating" | "wrapping" | "overflowing" | "unchecked" | "strict") {
                let x = e.int_arg(st, &a[0]);
                let y = e.int_arg(st, &a[1]);
                let v = e.binop(st, &format!("{}WithOverflow", mop), V::Int(x.clone()), V::Int(y.clone()), ty, None);
                let l = match &v {
                    V::Adt(t) => e.as_int(&t.f[0].clone()),
                    _ => return None,
                };
                match mode {
                    "wrapping" => {
                        let v = e.binop(st, mop, V::Int(x), V::Int(y), ty, None);
                        return one(st, v);
                    }
                    "checked" | "saturating" | "overflowing" => {
                        let mut r = vec![];
                        let f = fits(&l);
                        let (y1, _) = e.fork2(st, &f);
                        if let Some(s) = y1 {
                            let v = match mode {
                                "checked" => some(rty, V::Int(l.clone())),
                                "overflowing" => V::adt(rty, 0, vec![V::Int(l.clone()), V::Bool(F::F)]),
                                _ => V::Int(l.clone()),
                            };
                            r.push((s, v));
                        }
                        for (g, sat) in [(F::lt(&Lin::k(hi), &l), hi), (F::lt(&l, &Lin::k(lo)), lo)] {
                            let (s, _) = e.fork2(st, &g);
                            if let Some(s) = s {
                                let v = match mode {
                                    "checked" => none(rty),
                                    "overflowing" => V::adt(rty, 0, vec![e.mem.fresh("wrap", ty), V::Bool(F::T)]),
                                    _ => V::int(sat),
                                };
                                r.push((s, v));
                            }
                        }
                        return Some(r);
                    }
                    _ => return one(st, V::Int(l)),
                }
            }
            if matches!((mode, op), ("checked", "shl") | ("checked", "shr")) {
                let (w, _) = e.bits_of(ty);
                let y = e.int_arg(st, &a[1]);
                let x = e.int_arg(st, &a[0]);
                let mut r = vec![];
                let (s, n) = e.fork2(st, &F::lt(&y, &Lin::k(w as i128)));
                if let Some(mut s) = s {
                    let y = s.fx.norm(&y);
                    let v = e.binop(&mut s, if op == "shl" { "Shl" } else { "Shr" }, V::Int(x), V::Int(y), ty, None);
                    r.push((s, some(rty, v)));
                }
                if let Some(s) = n {
                    r.push((s, none(rty)));
                }
                return Some(r);
            }
            if matches!((mode, op), ("wrapping", "shl") | ("wrapping", "shr")) {
                let y = e.int_arg(st, &a[1]);
                let x = e.int_arg(st, &a[0]);
                let (w, _) = e.bits_of(ty);
                if st.implies(&F::lt(&y, &Lin::k(w as i128))) {
                    let v = e.binop(st, if op == "shl" { "Shl" } else { "Shr" }, V::Int(x), V::Int(y), ty, None);
                    return one(st, v);
                }
            }
            if matches!((mode, op), ("checked", "div") | ("checked", "rem")) {
                let y = e.int_arg(st, &a[1]);
                let x = e.int_arg(st, &a[0]);
                let mut r = vec![];
                let (s, n) = e.fork2(st, &F::ne(&y, &Lin::k(0)));
                if let Some(mut s) = s {
                    let v = e.binop(&mut s, if op == "div" { "Div" } else { "Rem" }, V::Int(x), V::Int(y), ty, None);
                    r.push((s, some(rty, v)));
                }
                if let Some(s) = n {
                    r.push((s, none(rty)));
                }
                return Some(r);
            }
        }
        match m {
            "from_str_radix" | "from_str" => {
                let c = e.content(st, &a[0]);
                let radix = if m == "from_str" { Lin::k(10) } else { e.int_arg(st, &a[1]) };
                let t = mk("parse", vec![c, tl(&radix), lit(tn.as_bytes())], Some((lo, hi)));
                let okt = app("parses", vec![c, tl(&radix), lit(tn.as_bytes())]);
                set_range(okt, (0, 1));
                let ety = targ(e, rty, 1);
                let mut r = vec![];
                let (y, n) = e.fork2(st, &F::atom(okt));
                if let Some(mut s) = y {
                    e.emit(&mut s, "parsed", vec![V::Int(lt(t)), a[0].clone()], tn);
                    r.push((s, okv(rty, V::Int(lt(t)))));
                }
                if let Some(s) = n {
                    let er = e.mem.fresh("parse_err", ety);
                    r.push((s, errv(rty, er)));
                }
                return Some(r);
            }
            "min_value" => return one(st, V::int(lo)),
            "max_value" => return one(st, V::int(hi)),
            "from_be_bytes" | "from_le_bytes" | "from_ne_bytes" => {
                let c = e.content(st, &a[0]);
                let n = e.prog.types[ty as usize].size.unwrap_or(1);
                let mut l = Lin::k(0);
                for i in 0..n {
                    let b = sel(c, &Lin::k(i), Some((0, 255)));
                    let sh = if m == "from_be_bytes" { 8 * (n - 1 - i) } else { 8 * i };
                    l = l.add(&lt(b).scale(1i128 << sh));
                }
                return one(st, V::Int(l));
            }
            "swap_bytes" | "to_be" | "from_be" => {
                let x = e.int_arg(st, &a[0]);
                let t = mk("swapb", vec![tl(&x)], Some((lo, hi)));
                return one(st, V::Int(lt(t)));
            }
            "is_ascii_digit" | "is_ascii_hexdigit" | "is_ascii_alphabetic" | "is_ascii_whitespace" | "is_ascii" | "is_ascii_alphanumeric" | "is_ascii_lowercase" | "is_ascii_uppercase" => {
                let x = e.int_arg(st, &a[0]);
                let t = mk(sym(m), vec![tl(&x)], Some((0, 1)));
                return Some(e.fork_bool(st, t, &[]));
            }
            "is_power_of_two" => return one(st, V::Bool(F::atom(fresh("pow2")))),
            "leading_zeros" | "trailing_zeros" | "count_ones" => {
                let x = e.int_arg(st, &a[0]);
                let t = mk(sym(m), vec![tl(&x)], Some((0, 128)));
                return one(st, V::Int(lt(t)));
            }
            "abs_diff" => {
                let (x, y) = (e.int_arg(st, &a[0]), e.int_arg(st, &a[1]));
                let (s, n) = e.fork2(st, &F::le(&x, &y));
                let mut r = vec![];
                if let Some(s) = s {
                    r.push((s, V::Int(y.sub(&x))));
                }
                if let Some(s) = n {
                    r.push((s, V::Int(x.sub(&y))));
                }
                return Some(r);
            }
            "div_ceil" => {
                let (x, y) = (e.int_arg(st, &a[0]), e.int_arg(st, &a[1]));
                if let Some(k) = y.is_const() {
                    if k > 0 {
                        let q = e.divmod(st, &x.addc(k - 1), k);
                        return one(st, V::Int(q));
                    }
                }
                e.panic_check(st, "division by zero", &F::ne(&y, &Lin::k(0)));
                return None;
            }
            "pow" => return None,
            _ => {}
        }
    }
    match d {
        "std::intrinsics::integer_min" | "std::intrinsics::integer_max" | "std::cmp::Ord::min" | "std::cmp::Ord::max" | "std::cmp::min" | "std::cmp::max" => {
            if !matches!(e.prog.k(rty), TK::Int { .. }) {
                return None;
            }
            let (x, y) = (e.int_arg(st, &a[0]), e.int_arg(st, &a[1]));
            let (s, n) = e.fork2(st, &F::le(&x, &y));
            let (x, y) = if d.ends_with("min") { (x, y) } else { (y, x) };
            let mut r = vec![];
            if let Some(s) = s {
                r.push((s, V::Int(x)));
            }
            if let Some(s) = n {
                r.push((s, V::Int(y)));
            }
            Some(r)
        }
        "std::cmp::PartialOrd::lt" | "std::cmp::PartialOrd::le" | "std::cmp::PartialOrd::gt" | "std::cmp::PartialOrd::ge" if matches!(e.prog.k(peel(e, tys[0])), TK::Int { .. } | TK::Char) => {
            let (x, y) = (e.int_arg(st, &a[0]), e.int_arg(st, &a[1]));
            let f = match last(d) {
                "lt" => F::lt(&x, &y),
                "le" => F::le(&x, &y),
                "gt" => F::lt(&y, &x),
                _ => F::le(&y, &x),
            };
            one(st, V::Bool(f))
        }
        "std::cmp::PartialOrd::lt" | "std::cmp::PartialOrd::le" | "std::cmp::PartialOrd::gt" | "std::cmp::PartialOrd::ge" if is_seq_ty(e, peel(e, tys[0])) => {
            let (x, y) = (e.content(st, &a[0]), e.content(st, &a[1]));
            let t = ranged(app("cmpseq", vec![x, y]), (-1, 1));
            let mut r = vec![];
            for k in [-1, 0, 1] {
                if let (Some(mut s), _) = e.fork2(st, &F::eq(&Lin::atom(t), &Lin::k(k))) {
                    e.emit(&mut s, "cmpseq", vec![a[0].clone(), a[1].clone(), V::int(k)], "");
                    let b = match last(d) {
                        "lt" => k < 0,
                        "le" => k <= 0,
                        "gt" => k > 0,
                        _ => k >= 0,
                    };
                    r.push((s, V::Bool(if b { F::T } else { F::F })));
                }
            }
            Some(r)
        }
        "std::cmp::Ord::cmp" | "std::cmp::PartialOrd::partial_cmp" => {
            let opt = d.ends_with("partial_cmp");
            let oty = if opt { targ(e, rty, 0) } else { rty };
            let st0 = peel(e, tys[0]);
            let mut r = vec![];
            let mut push = |s: State, var: u32| {
                let v = V::adt(oty, var, vec![]);
                r.push((s, if opt { some(rty, v) } else { v }));
            };
            if matches!(e.prog.k(st0), TK::Int { .. } | TK::Char) {
                let (x, y) = (e.int_arg(st, &a[0]), e.int_arg(st, &a[1]));
                for (f, k) in [(F::lt(&x, &y), 0), (F::eq(&x, &y), 1), (F::lt(&y, &x), 2)] {
                    if let (Some(s), _) = e.fork2(st, &f) {
                        push(s, k);
                    }
                }
                return Some(r);
            }
            if is_seq_ty(e, st0) {
                let (x, y) = (e.content(st, &a[0]), e.content(st, &a[1]));
                let t = ranged(app("cmpseq", vec![x, y]), (-1, 1));
                for (f, k) in [(-1, 0u32), (0, 1), (1, 2)] {
                    if let (Some(mut s), _) = e.fork2(st, &F::eq(&Lin::atom(t), &Lin::k(f))) {
                        e.emit(&mut s, "cmpseq", vec![a[0].clone(), a[1].clone(), V::int(f)], "");
                        push(s, k);
                    }
                }
                return Some(r);
            }
            None
        }
        "std::clone::Clone::clone" | "std::borrow::ToOwned::to_owned" | "std::borrow::Cow::<'_, B>::into_owned" | "std::iter::Iterator::by_ref" => {
            if d.ends_with("by_ref") {
                return one(st, a[0].clone());
            }
            if d.ends_with("into_owned") {
                if is_seq_ty(e, rty) {
                    if let Some(s) = e.mem.as_slice(st, &a[0]) {
                        let v = e.owned(st, &s);
                        return one(st, v);
                    }
                }
                return None;
            }
            if is_seq_ty(e, rty) && e.mem.ptr_elem(rty).is_none() {
                let s = e.sl(st, &a[0]);
                let v = e.owned(st, &s);
                return one(st, v);
            }
            // the value one reference down
            match &a[0] {
                V::Ref(p) => {
                    let v = e.mem.read(st, &p.clone());
                    one(st, v)
                }
                x => one(st, x.clone()),
            }
        }
        "std::mem::size_of" | "std::mem::align_of" => {
            let t = *c_targ(e).get(0).unwrap_or(&u32::MAX);
            let _ = t;
            None
        }
        _ => None,
    }
}
fn c_targ(_e: &Engine) -> Vec<Ty> {
    vec![]
}

/// Equality of two byte sequences.
pub fn seq_eq(e: &mut Engine, st: &mut State, x: &V, y: &V) -> Outs {
    let (sx, sy) = (e.sl(st, x), e.sl(st, y));
    let (cx, cy) = (e.mem.slice_content(st, &sx), e.mem.slice_content(st, &sy));
    let (lx, ly) = (st.fx.norm(&sx.len), st.fx.norm(&sy.len));
    if let (Some(p), Some(q)) = (lit_of(cx), lit_of(cy)) {
        return vec![(st.clone(), V::Bool(F::of(p == q)))];
    }
    if st.implies(&F::ne(&lx, &ly)) {
        return vec![(st.clone(), V::Bool(F::F))];
    }
    let (p, q) = if cx <= cy { (cx, cy) } else { (cy, cx) };
    let t = app("eqs", vec![p, q]);
    let mut fs = vec![F::eq(&lx, &ly)];
    for (l, o) in [(cx, cy), (cy, cx)] {
        if let Some(b) = lit_of(l) {
            for (i, x) in b.iter().enumerate().take(64) {
                let s = sel(o, &Lin::k(i as i128), Some((0, 255)));
                fs.push(F::eq(&lt(s), &Lin::k(*x as i128)));
            }
        }
    }
    let mut r = e.fork_bool(st, t, &fs);
    // a short literal: differing in length or content
    for (s, v) in r.iter_mut() {
        if *v == V::Bool(F::T) {
            e.emit(s, "eq", vec![x.clone(), y.clone()], "");
        }
    }
    r
}

fn seqs(e: &mut Engine, st: &mut State, c: &Callee, d: &str, p: &str, a: &[V], tys: &[Ty], rty: Ty) -> Option<Outs> {
    let m = last(p).to_string();
    let m = m.as_str();
    let self_ty = tys.first().cloned().unwrap_or(u32::MAX);
    let has_seq = self_ty != u32::MAX && is_seq_ty(e, self_ty);
    match d {
        "std::convert::AsRef::as_ref" | "std::convert::AsMut::as_mut" | "std::ops::Deref::deref" | "std::ops::DerefMut::deref_mut" | "std::borrow::Borrow::borrow" => {
            // the result is a view of a sequence
            let rp = e.mem.ptr_elem(rty)?;
            if e.mem.is_unsized_seq(rp) {
                let s = e.sl(st, &a[0]);
                return one(st, V::Slice(s));
            }
            if matches!(path_of(e, self_ty).as_str(), "std::sync::Arc" | "std::boxed::Box" | "std::rc::Rc") {
                if let V::Ref(p) = &a[0] {
                    let v = e.mem.read(st, &p.clone());
                    if matches!(v, V::Ref(_) | V::Slice(_)) {
                        return one(st, v);
                    }
                }
            }
            if d == "std::convert::AsRef::as_ref" {
                // the blanket implementation for references
                if let V::Ref(p) = &a[0] {
                    let v = e.mem.read(st, &p.clone());
                    if matches!(v, V::Ref(_)) {
                        return one(st, v);
                    }
                }
            }
            return None;
        }
        "std::ops::Index::index" | "std::ops::IndexMut::index_mut" => {
            if has_seq || matches!(e.prog.k(peel(e, self_ty)), TK::Param | TK::Other) {
                return e.index(st, &a[0], &a[1], tys[1], rty);
            }
            return None;
        }
        "std::cmp::PartialEq::eq" | "std::cmp::PartialEq::ne" => {
            let ne = d.ends_with("ne");
            let t0 = peel(e, self_ty);
            let mut r = match e.prog.k(t0).clone() {
                TK::Int { .. } | TK::Char => {
                    let (x, y) = (e.int_arg(st, &a[0]), e.int_arg(st, &a[1]));
                    vec![(st.clone(), V::Bool(F::eq(&x, &y)))]
                }
                TK::Bool => {
                    let (x, y) = (e.mem.deref_all(st, &a[0]), e.mem.deref_all(st, &a[1]));
                    let v = e.binop(st, "Eq", x, y, t0, None);
                    vec![(st.clone(), v)]
                }
                TK::Adt { path, .. } if path == "std::io::ErrorKind" => {
                    let (x, y) = (e.mem.deref_all(st, &a[0]), e.mem.deref_all(st, &a[1]));
                    let (x, y) = (e.discr(st, &x), e.discr(st, &y));
                    vec![(st.clone(), V::Bool(F::eq(&x, &y)))]
                }
                TK::Adt { is_enum: true, variants: Some(vs), .. } if vs.iter().all(|v| v.fields.is_empty()) => {
                    let (x, y) = (e.mem.deref_all(st, &a[0]), e.mem.deref_all(st, &a[1]));
                    let (x, y) = (e.discr(st, &x), e.discr(st, &y));
                    vec![(st.clone(), V::Bool(F::eq(&x, &y)))]
                }
                _ if has_seq && tys.len() > 1 && is_seq_ty(e, tys[1]) => seq_eq(e, st, &a[0], &a[1]),
                TK::Adt { path, .. } if path == "std::path::Component" || path == "std::ffi::OsStr" => return Some(e.fork_bool(st, fresh("eq"), &[])),
                _ => return None,
            };
            if ne {
                for x in r.iter_mut() {
                    if let V::Bool(f) = &x.1 {
                        x.1 = V::Bool(f.not());
                    }
                }
            }
            return Some(r);
        }
        "std::convert::From::from" | "std::convert::Into::into" => {
            // conversions between owners of bytes
            if matches!((e.prog.k(rty), tys.first().map(|t| e.prog.k(*t))), (TK::Ref { .. }, Some(TK::Ref { .. }))) && has_seq && e.mem.ptr_elem(rty).map_or(false, |t| e.mem.is_unsized_seq(t)) && tys.first().map_or(false, |t| e.mem.ptr_elem(*t).map_or(false, |t| e.mem.is_unsized_seq(t))) {
                let s = e.sl(st, &a[0]);
                return one(st, V::Slice(s));
            }
            if is_seq_ty(e, rty) && has_seq && e.mem.ptr_elem(rty).is_none() {
                let s = e.sl(st, &a[0]);
                let v = e.owned(st, &s);
                return one(st, v);
            }
            if let (TK::Adt { path, args, .. }, true) = (e.prog.k(rty).clone(), has_seq) {
                if matches!(path.as_str(), "std::sync::Arc" | "std::boxed::Box" | "std::rc::Rc") && e.mem.is_unsized_seq(args[0]) {
                    let s = e.sl(st, &a[0]);
                    let v = e.owned(st, &s);
                    if let V::Seq(q) = v {
                        return one(st, slice_v(q, None));
                    }
                }
                if path == "std::borrow::Cow" {
                    return one(st, V::adt(rty, 0, vec![a[0].clone()]));
                }
            }
            if matches!(e.prog.k(rty), TK::Int { .. } | TK::Char) && matches!(e.prog.k(self_ty), TK::Int { .. } | TK::Bool | TK::Char) {
                let v = e.cast_int(st, a[0].clone(), rty);
                return one(st, v);
            }
            if p == "<T as std::convert::From<T>>::from" || rty == self_ty {
                return one(st, a[0].clone());
            }
            if p == "<T as std::convert::Into<U>>::into" || c.unresolved {
                // find the From implementation through the blanket impl's argument types
                if let Some(f) = find_from(e, self_ty, rty) {
                    return Some(e.exec_fn(st.clone(), f, vec![a[0].clone()]));
                }
                if !c.unresolved {
                    let nc = Callee { decl: "std::convert::From::from".into(), ..Default::default() };
                    return seqs(e, st, &nc, "std::convert::From::from", "std::convert::From::from", a, tys, rty);
                }
            }
            return None;
        }
        "std::convert::TryFrom::try_from" | "std::convert::TryInto::try_into" => {
            let ok_ty = targ(e, rty, 0);
            if let (TK::Array(_, Some(n)), true) = (e.prog.k(peel(e, ok_ty)).clone(), has_seq) {
                let s = e.sl(st, &a[0]);
                let mut r = vec![];
                let (y, no) = e.fork2(st, &F::eq(&s.len, &Lin::k(n)));
                if let Some(mut z) = y {
                    let v = if e.mem.ptr_elem(ok_ty).is_some() {
                        let v = e.owned(&mut z, &s);
                        e.mem.temp_ref(&mut z, v, peel(e, ok_ty))
                    } else {
                        e.owned(&mut z, &s)
                    };
                    r.push((z, okv(rty, v)));
                }
                if let Some(z) = no {
                    let er = e.mem.fresh("try_from_err", targ(e, rty, 1));
                    r.push((z, errv(rty, er)));
                }
                return Some(r);
            }
            if let (TK::Int { .. }, TK::Int { .. }) = (e.prog.k(ok_ty), e.prog.k(self_ty)) {
                let x = e.int_arg(st, &a[0]);
                let (lo, hi) = e.prog.int_range(ok_ty)?;
                let mut r = vec![];
                if let (Some(s), _) = e.fork2(st, &F::and(&F::le(&Lin::k(lo), &x), &F::le(&x, &Lin::k(hi)))) {
                    r.push((s, okv(rty, V::Int(x.clone()))));
                }
                for g in [F::lt(&Lin::k(hi), &x), F::lt(&x, &Lin::k(lo))] {
                    if let (Some(s), _) = e.fork2(st, &g) {
                        let er = e.mem.fresh("try_from_err", targ(e, rty, 1));
                        r.push((s, errv(rty, er)));
                    }
                }
                return Some(r);
            }
            return None;
        }
        "std::default::Default::default" => {
            if let TK::Array(el, Some(n)) = e.prog.k(rty).clone() {
                if el == e.mem.u8_ty && n <= 4096 {
                    return one(st, V::Seq(Rc::new(SeqV { c: lit(&vec![0u8; n as usize]), len: Lin::k(n), ety: el, tpl: Tpl::Any, q: vec![] })));
                }
            }
            if matches!(e.prog.k(rty), TK::Int { .. }) {
                return one(st, V::int(0));
            }
            if matches!(e.prog.k(rty), TK::Bool) {
                return one(st, V::Bool(F::F));
            }
            if matches!(e.prog.adt_path(rty), "std::option::Option") {
                return one(st, none(rty));
            }
            if let (Some(el), true) = (e.mem.seq_elem(rty), e.mem.ptr_elem(rty).is_none()) {
                return one(st, V::Seq(Rc::new(SeqV { c: lit(b""), len: Lin::k(0), ety: el, tpl: Tpl::Bot, q: vec![] })));
            }
            return None;
        }
        "std::mem::size_of" | "std::mem::align_of" => {
            let t = *c.targs.first()?;
            let ti = &e.prog.types[t as usize];
            let n = if m == "size_of" { ti.size } else { ti.align };
            return one(st, match n {
                Some(n) => V::int(n),
                None => {
                    let n = lit(e.prog.ts(t).as_bytes());
                    V::Int(lt(ranged(app(m, vec![n]), (0, 1 << 32))))
                }
            });
        }
        "std::mem::take" | "std::mem::replace" | "std::mem::swap" => {
            if let V::Ref(q) = &a[0] {
                let old = e.mem.read(st, &q.clone());
                match m {
                    "replace" => {
                        e.mem.write(st, &q.clone(), a[1].clone());
                        return one(st, old);
                    }
                    "swap" => {
                        if let V::Ref(q2) = &a[1] {
                            let o2 = e.mem.read(st, &q2.clone());
                            e.mem.write(st, &q.clone(), o2);
                            e.mem.write(st, &q2.clone(), old);
                            return one(st, V::adt(rty, 0, vec![]));
                        }
                    }
                    _ => {
                        let nc = Callee { decl: "std::default::Default::default".into(), ..Default::default() };
                        let r = seqs(e, st, &nc, "std::default::Default::default", "std::default::Default::default", &[], &[], rty)?;
                        let nv = r[0].1.clone();
                        e.mem.write(st, &q.clone(), nv);
                        return one(st, old);
                    }
                }
            }
            return None;
        }
        "std::hint::must_use" | "std::hint::black_box" | "std::convert::identity" | "std::mem::ManuallyDrop::<T>::new" => return one(st, a[0].clone()),
        _ => {}
    }
    // views
    let view_fn = matches!(
        p,
        "core::str::<impl str>::as_bytes"
            | "std::string::String::as_str"
            | "std::string::String::as_bytes"
            | "std::string::String::into_bytes"
            | "std::string::String::into_boxed_str"
            | "std::path::Path::as_os_str"
            | "std::path::Path::new"
            | "std::path::PathBuf::as_path"
            | "std::path::Path::to_path_buf"
            | "std::path::PathBuf::into_os_string"
            | "std::ffi::OsStr::new"
            | "std::ffi::OsStr::to_os_string"
            | "bstr::ByteSlice::as_bstr"
            | "bstr::ByteSlice::as_bytes"
            | "bstr::ByteSlice::trim_end"
    ) || d == "bstr::ByteSlice::as_bstr"
        || d == "std::os::unix::ffi::OsStrExt::as_bytes"
        || d == "std::os::unix::ffi::OsStrExt::from_bytes"
        || d == "std::os::unix::ffi::OsStringExt::from_vec"
        || d == "std::os::unix::ffi::OsStringExt::into_vec"
        || (has_seq && matches!(m, "as_slice" | "as_mut_slice" | "as_ref" | "as_bstr" | "as_bytes" | "as_mut" | "to_vec" | "into_vec" | "into_boxed_slice" | "into_bytes" | "to_string" | "freeze" | "to_path_buf" | "into_boxed_bytes" | "to_bytes" | "to_os_string" | "into_string_lossy" | "into_inner"));
    if view_fn {
        let s = e.sl(st, &a[0]);
        if p == "bstr::ByteSlice::trim_end" {
            // a prefix of the input
            let cc = e.mem.slice_content(st, &s);
            let n = mk("trimend", vec![cc], Some((0, MAXLEN)));
            st.assume(&F::le(&lt(n), &s.len));
            // what is not white space stays
            let b = tl(&Lin::k(b'/' as i128));
            if st.fx.implies(&F::eq(&lt(app("has", vec![cc, b])), &Lin::k(1))) {
                st.assume(&F::lt(&Lin::k(0), &lt(n)));
            }
            let v = e.subslice(st, &s, &Lin::k(0), &lt(n));
            return one(st, v);
        }
        if e.mem.ptr_elem(rty).is_some() {
            return one(st, V::Slice(s));
        }
        let v = e.owned(st, &s);
        return one(st, v);
    }
    if matches!(p, "std::string::String::from_utf8_lossy" | "std::ffi::OsStr::to_string_lossy" | "bstr::ByteSlice::to_str_lossy") || m == "to_string_lossy" {
        let cc = e.content(st, &a[0]);
        let v = e.bytes_of(app("lossy", vec![cc]));
        // a Cow: model it as its owned form
        if e.prog.adt_path(rty) == "std::borrow::Cow" {
            return one(st, V::adt(rty, 1, vec![v]));
        }
        return one(st, v);
    }
    if matches!(p, "std::str::from_utf8" | "bstr::ByteSlice::to_str" | "std::string::String::from_utf8" | "std::ffi::OsStr::to_str" | "std::path::Path::to_str") || d == "bstr::ByteSlice::to_str" || p == "core::str::<impl str>::from_utf8" {
        let s = e.sl(st, &a[0]);
        let cc = e.mem.slice_content(st, &s);
        let t = app("utf8", vec![cc]);
        let opt = e.prog.adt_path(rty) == "std::option::Option";
        let inner = targ(e, rty, 0);
        let mut r = vec![];
        for (mut z, v) in e.fork_bool(st, t, &[]) {
            if v == V::Bool(F::T) {
                let v = if e.mem.ptr_elem(inner).is_some() { V::Slice(s.clone()) } else { e.owned(&mut z, &s) };
                r.push((z, if opt { some(rty, v) } else { okv(rty, v) }));
            } else if opt {
                r.push((z, none(rty)));
            } else {
                let er = e.mem.fresh("utf8_err", targ(e, rty, 1));
                r.push((z, errv(rty, er)));
            }
        }
        return Some(r);
    }
    if p == "core::str::<impl str>::parse" {
        // T::from_str
        let t = targ(e, rty, 0);
        let tn = e.prog.ts(t).to_string();
        if matches!(e.prog.k(t), TK::Int { .. }) {
            return num(e, st, "std::str::FromStr::from_str", &format!("core::num::<impl {}>::from_str", tn), a, tys, rty);
        }
        return None;
    }
    if d == "std::str::FromStr::from_str" {
        let t = targ(e, rty, 0);
        let tn = e.prog.ts(t).to_string();
        if matches!(e.prog.k(t), TK::Int { .. }) {
            return num(e, st, d, &format!("core::num::<impl {}>::from_str", tn), a, tys, rty);
        }
        return None;
    }
    if matches!(m, "new" | "with_capacity" | "new_in" | "from_elem") && e.mem.seq_elem(rty).is_some() && e.mem.ptr_elem(rty).is_none() && !matches!(e.prog.k(rty), TK::Array(..)) {
        let el = e.mem.seq_elem(rty).unwrap();
        if m == "with_capacity" {
            let n = e.int_arg(st, &a[0]);
            e.emit(st, "alloc", vec![V::Int(n), V::int(0)], p);
        }
        if m == "from_elem" {
            let n = e.int_arg(st, &a[1]);
            e.emit(st, "alloc", vec![V::Int(n.clone()), V::int(0)], p);
            let cc = fresh("elems");
            st.assume(&F::eq(&lt(len_t(cc)), &n));
            let tpl = if matches!(e.prog.k(el), TK::Int { .. }) { Tpl::Any } else { Tpl::V(Rc::new(TplV { v: a[0].clone(), gs: vec![], fs: vec![] })) };
            return one(st, V::Seq(Rc::new(SeqV { c: cc, len: n, ety: el, tpl, q: vec![] })));
        }
        let tpl = if matches!(e.prog.k(el), TK::Int { .. }) { Tpl::Any } else { Tpl::Bot };
        return one(st, V::Seq(Rc::new(SeqV { c: lit(b""), len: Lin::k(0), ety: el, tpl, q: vec![] })));
    }
    if matches!(m, "from_static" | "copy_from_slice" | "from_slice") && e.mem.seq_elem(rty).is_some() {
        let s = e.sl(st, &a[0]);
        let v = e.owned(st, &s);
        return one(st, v);
    }
    if p == "bytes::Bytes::slice" || p == "bytes::Bytes::slice_ref" {
        let s = e.sl(st, &a[0]);
        let (lo, hi) = e.range_arg(st, &a[1], tys[1], &s.len.clone())?;
        let c2 = F::and(&F::le(&lo, &hi), &F::le(&hi, &s.len));
        e.panic_check(st, "slice range in bounds", &c2);
        let v = e.subslice(st, &s, &lo, &hi);
        let s2 = e.sl(st, &v);
        let v = e.owned(st, &s2);
        return one(st, v);
    }
    if !has_seq {
        return None;
    }
    // methods on sequences
    let s = e.sl(st, &a[0]);
    let len = st.fx.norm(&s.len);
    let unit_v = V::adt(rty, 0, vec![]);
    match m {
        "len" => one(st, V::Int(len)),
        "is_empty" => one(st, V::Bool(F::eq(&len, &Lin::k(0)))),
        "capacity" => {
            let t = ranged(fresh("cap"), (0, MAXLEN));
            st.assume(&F::le(&len, &lt(t)));
            one(st, V::Int(lt(t)))
        }
        "get" | "get_mut" => {
            let mut r = vec![];
            if let TK::Int { .. } = e.prog.k(peel(e, tys[1])) {
                let i = e.int_arg(st, &a[1]);
                let (y, n) = e.fork2(st, &F::lt(&i, &len));
                if let Some(mut z) = y {
                    let v = e.elem_ref(&mut z, &s, &i);
                    r.push((z, some(rty, v)));
                }
                if let Some(z) = n {
                    r.push((z, none(rty)));
                }
                return Some(r);
            }
            let (lo, hi) = e.range_arg(st, &a[1], tys[1], &len)?;
            let f = F::and(&F::le(&lo, &hi), &F::le(&hi, &len));
            for z in split(st, &f) {
                let v = e.subslice(&z, &s, &lo, &hi);
                r.push((z, some(rty, v)));
            }
            for z in split(st, &f.not()) {
                r.push((z, none(rty)));
            }
            Some(r)
        }
        "first" | "last" | "first_mut" | "last_mut" => {
            let mut r = vec![];
            let (y, n) = e.fork2(st, &F::lt(&Lin::k(0), &len));
            if let Some(mut z) = y {
                let i = if m.starts_with("first") { Lin::k(0) } else { len.addc(-1) };
                let v = e.elem_ref(&mut z, &s, &i);
                r.push((z, some(rty, v)));
            }
            if let Some(z) = n {
                r.push((z, none(rty)));
            }
            Some(r)
        }
        "split_first" | "split_last" => {
            let mut r = vec![];
            let tt = targ(e, rty, 0);
            let (y, n) = e.fork2(st, &F::lt(&Lin::k(0), &len));
            if let Some(mut z) = y {
                let f = m == "split_first";
                let i = if f { Lin::k(0) } else { len.addc(-1) };
                let v = e.elem_ref(&mut z, &s, &i);
                let rest = if f { e.subslice(&z, &s, &Lin::k(1), &len) } else { e.subslice(&z, &s, &Lin::k(0), &len.addc(-1)) };
                r.push((z, some(rty, V::adt(tt, 0, vec![v, rest]))));
            }
            if let Some(z) = n {
                r.push((z, none(rty)));
            }
            Some(r)
        }
        "split_at" | "split_at_mut" => {
            let i = e.int_arg(st, &a[1]);
            e.panic_check(st, "split point in bounds", &F::le(&i, &len));
            let x = e.subslice(st, &s, &Lin::k(0), &i);
            let y = e.subslice(st, &s, &i, &len);
            one(st, V::adt(rty, 0, vec![x, y]))
        }
        "split_at_checked" => {
            let i = e.int_arg(st, &a[1]);
            let tt = targ(e, rty, 0);
            let mut r = vec![];
            let (y, n) = e.fork2(st, &F::le(&i, &len));
            if let Some(z) = y {
                let x = e.subslice(&z, &s, &Lin::k(0), &i);
                let w = e.subslice(&z, &s, &i, &len);
                r.push((z, some(rty, V::adt(tt, 0, vec![x, w]))));
            }
            if let Some(z) = n {
                r.push((z, none(rty)));
            }
            Some(r)
        }
        "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" if a.len() == 2 && is_seq_ty(e, tys[1]) => {
            if p.starts_with("std::path::Path") {
                return Some(e.fork_bool(st, fresh("path_starts"), &[]));
            }
            let q = e.sl(st, &a[1]);
            let (cs, cq) = (e.mem.slice_content(st, &s), e.mem.slice_content(st, &q));
            let front = m == "starts_with" || m == "strip_prefix";
            let ql = st.fx.norm(&q.len);
            let t = app(if front { "sw" } else { "ew" }, vec![cs, cq]);
            let mut fs = vec![F::le(&ql, &len)];
            let mut certain = false;
            if let Some(b) = lit_of(cq) {
                let base = if front { Lin::k(0) } else { len.sub(&ql) };
                let mut bad = st.implies(&F::lt(&len, &ql));
                let mut all = st.implies(&F::le(&ql, &len));
                for (i, x) in b.iter().enumerate().take(64) {
                    let y = lt(sel(cs, &st.fx.norm(&base.addc(i as i128)), Some((0, 255))));
                    let f = F::eq(&y, &Lin::k(*x as i128));
                    bad = bad || st.implies(&f.not());
                    all = all && st.implies(&f);
                    fs.push(f);
                }
                if bad {
                    fs.push(F::F);
                }
                certain = all;
            } else {
                e.emit(st, "prefix_test", vec![a[0].clone(), a[1].clone()], m);
            }
            let strip = m.starts_with("strip");
            let mut r = vec![];
            for (mut z, v) in e.fork_bool(st, t, &fs) {
                let yes = v == V::Bool(F::T);
                if !yes && certain {
                    continue;
                }
                if yes && front && lit_of(cq).is_some() {
                    e.emit(&mut z, "starts", vec![V::Slice(s.clone()), V::Slice(q.clone())], "");
                }
                if !yes && front && lit_of(cq).is_some() {
                    e.emit(&mut z, "differs", vec![V::Slice(s.clone()), V::Slice(q.clone())], "");
                }
                if yes {
                    e.emit(&mut z, "prefix", vec![a[0].clone(), a[1].clone()], m);
                }
                if strip {
                    if yes {
                        let w = if front { e.subslice(&z, &s, &ql, &len) } else { e.subslice(&z, &s, &Lin::k(0), &len.sub(&ql)) };
                        r.push((z, some(rty, w)));
                    } else {
                        r.push((z, none(rty)));
                    }
                } else {
                    r.push((z, v));
                }
            }
            Some(r)
        }
        "starts_with" | "ends_with" | "strip_prefix" | "strip_suffix" => {
            // character or closure pattern
            let x = e.mem.deref_all(st, &a[1]);
            if m == "strip_prefix" || m == "strip_suffix" {
                let mut r = vec![];
                if let (Some(z), _) = e.fork2(st, &F::lt(&Lin::k(0), &len)) {
                    let v = if m == "strip_prefix" { e.subslice(&z, &s, &Lin::k(1), &len) } else { e.subslice(&z, &s, &Lin::k(0), &len.addc(-1)) };
                    r.push((z, some(rty, v)));
                }
                r.push((st.clone(), none(rty)));
                return Some(r);
            }
            let _ = x;
            Some(e.fork_bool(st, fresh("pat"), &[]))
        }
        "contains" => {
            let x = e.mem.deref_all(st, &a[1]);
            let cs = e.mem.slice_content(st, &s);
            if let (V::Int(l), Some(b)) = (&x, lit_of(cs)) {
                if b.len() <= 8 && s.seq.ety == e.mem.u8_ty {
                    let mut r = vec![];
                    let mut no = st.clone();
                    for k in b.iter() {
                        let f = F::eq(l, &Lin::k(*k as i128));
                        let mut y = no.clone();
                        y.assume(&f);
                        no.assume(&f.not());
                        if !y.fx.bot {
                            r.push((y, V::Bool(F::T)));
                        }
                    }
                    if !no.fx.bot {
                        r.push((no, V::Bool(F::F)));
                    }
                    return Some(r);
                }
            }
            let t = match &x {
                V::Int(l) => app("has", vec![cs, tl(&st.fx.norm(l))]),
                _ => fresh("contains"),
            };
            let mut r = e.fork_bool(st, t, &[F::lt(&Lin::k(0), &len)]);
            if let V::Int(l) = &x {
                for (z, v) in r.iter_mut() {
                    let w = if *v == V::Bool(F::T) { "found" } else { "absent" };
                    e.emit(z, w, vec![V::Slice(s.clone()), V::Int(l.clone())], m);
                }
            }
            Some(r)
        }
        "find" | "rfind" if p.starts_with("core::str") => {
            let mut r = vec![];
            let i = ranged(fresh("find"), (0, MAXLEN));
            if let (Some(z), _) = e.fork2(st, &F::lt(&lt(i), &len)) {
                r.push((z, some(rty, V::Int(lt(i)))));
            }
            r.push((st.clone(), none(rty)));
            Some(r)
        }
        "split_once" | "rsplit_once" => {
            let i = ranged(fresh("split"), (0, MAXLEN));
            let tt = targ(e, rty, 0);
            let mut r = vec![];
            if let (Some(z), _) = e.fork2(st, &F::lt(&lt(i), &len)) {
                let x = e.subslice(&z, &s, &Lin::k(0), &lt(i));
                let y = e.subslice(&z, &s, &lt(i).addc(1), &len);
                r.push((z, some(rty, V::adt(tt, 0, vec![x, y]))));
            }
            r.push((st.clone(), none(rty)));
            Some(r)
        }
        "trim" | "trim_end" | "trim_start" | "trim_matches" | "trim_end_matches" | "trim_start_matches" | "trim_ascii" | "trim_ascii_end" | "trim_ascii_start" => {
            let i = ranged(fresh("trim"), (0, MAXLEN));
            let n = ranged(fresh("trim"), (0, MAXLEN));
            st.assume(&F::le(&lt(i).add(&lt(n)), &len));
            let lo = if m.contains("end") { Lin::k(0) } else { lt(i) };
            let hi = if m.contains("start") { len.clone() } else { lo.add(&lt(n)) };
            let v = e.subslice(st, &s, &lo, &hi);
            one(st, v)
        }
        "resize" => {
            let n = e.int_arg(st, &a[1]);
            e.emit(st, "alloc", vec![V::Int(n.clone()), V::Int(len.clone())], p);
            let q = e.seq_at(st, &a[0]);
            let cc = resized(st, &q, &n);
            e.put_seq(st, &a[0], SeqV { c: cc, len: n, q: vec![], ..q });
            one(st, unit_v)
        }
        "truncate" => {
            e.emit(st, "reorder", vec![a[0].clone()], m);
            let n = e.int_arg(st, &a[1]);
            let mut r = vec![];
            let (y, no) = e.fork2(st, &F::le(&n, &len));
            if let Some(mut z) = y {
                let q = e.seq_at(&mut z, &a[0]);
                let cc = sl(q.c, &Lin::k(0), &n);
                e.put_seq(&mut z, &a[0], SeqV { c: cc, len: n, ..q });
                r.push((z, unit_v.clone()));
            }
            if let Some(z) = no {
                r.push((z, unit_v));
            }
            Some(r)
        }
        "clear" => {
            let q = e.seq_at(st, &a[0]);
            let tpl = if q.tpl == Tpl::Any && matches!(e.prog.k(q.ety), TK::Int { .. }) { Tpl::Any } else { Tpl::Bot };
            e.put_seq(st, &a[0], SeqV { c: lit(b""), len: Lin::k(0), tpl, q: vec![], ety: q.ety });
            one(st, unit_v)
        }
        "reserve" | "reserve_exact" => {
            let n = e.int_arg(st, &a[1]);
            e.emit(st, "alloc", vec![V::Int(len.add(&n)), V::Int(len.clone())], p);
            one(st, unit_v)
        }
        "shrink_to_fit" | "sort" | "sort_unstable" | "dedup" | "reverse" => {
            e.emit(st, "reorder", vec![a[0].clone()], m);
            e.clobber(st, &a[0]);
            if m == "dedup" {
                let q = e.seq_at(st, &a[0]);
                let n = ulen("dedup");
                st.assume(&F::le(&n, &q.len));
                e.put_seq(st, &a[0], SeqV { len: n, ..q });
            }
            one(st, unit_v)
        }
        "add" if d == "std::ops::Add::add" && p.contains("String") => {
            let (x, y) = (e.sl(st, &a[0]), e.sl(st, &a[1]));
            let v = e.owned(st, &x);
            if let V::Seq(q) = v {
                let cc = app("cat", vec![q.c, e.mem.slice_content(st, &y)]);
                let nl = st.fx.norm(&q.len.add(&y.len));
                return one(st, V::Seq(Rc::new(SeqV { c: cc, len: nl, q: vec![], ..(*q).clone() })));
            }
            return None;
        }
        "extend_from_slice" | "push_str" | "put_slice" => {
            let src = e.sl(st, &a[1]);
            e.emit(st, "extend", vec![a[0].clone(), V::Slice(src.clone())], p);
            let q = e.seq_at(st, &a[0]);
            let cc = app("cat", vec![q.c, e.mem.slice_content(st, &src)]);
            let nl = st.fx.norm(&q.len.add(&src.len));
            st.assume(&F::le(&nl, &Lin::k(MAXLEN)));
            e.put_seq(st, &a[0], SeqV { c: cc, len: nl, q: vec![], ..q });
            one(st, unit_v)
        }
        "push" | "push_back" | "put_u8" if !p.starts_with("std::path") && !p.starts_with("std::ffi") => {
            let q = e.seq_at(st, &a[0]);
            let nl = q.len.addc(1);
            let tpl = if matches!(a[1], V::Int(_)) && !e.mem.int_tpl { Tpl::Any } else { join::push_tpl(&mut e.mem, st, &q, &a[1]) };
            let cc = app("cat1", vec![q.c, tl(&q.len)]);
            e.emit(st, "push", vec![a[0].clone(), a[1].clone()], p);
            st.assume(&F::le(&nl, &Lin::k(MAXLEN)));
            let cc = if matches!(a[1], V::Int(_)) { fresh("pushed") } else { cc };
            e.put_seq(st, &a[0], SeqV { c: cc, len: nl, q: vec![], tpl, ety: q.ety });
            one(st, unit_v)
        }
        "pop" | "pop_back" | "pop_front" | "swap_remove" | "remove" if !p.starts_with("std::path") => {
            let q = e.seq_at(st, &a[0]);
            let mut r = vec![];
            if m == "remove" || m == "swap_remove" {
                let i = e.int_arg(st, &a[1]);
                e.panic_check(st, "index in bounds", &F::lt(&i, &len));
                let v = e.mem.slice_elem(st, &s, &i);
                e.put_seq(st, &a[0], SeqV { c: fresh("removed"), len: q.len.addc(-1), q: vec![], ..q });
                return one(st, v);
            }
            let (y, n) = e.fork2(st, &F::lt(&Lin::k(0), &len));
            if let Some(mut z) = y {
                let i = if m == "pop_front" { Lin::k(0) } else { len.addc(-1) };
                let v = e.mem.slice_elem(&mut z, &s, &i);
                let nl = len.addc(-1);
                let cc = if m == "pop_front" { fresh("popped") } else { sl(q.c, &Lin::k(0), &nl) };
                e.put_seq(&mut z, &a[0], SeqV { c: cc, len: nl, q: vec![], ..q });
                if matches!(&v, V::Adt(_)) {
                    e.emit(&mut z, "item", vec![v.clone()], if m == "pop_front" { "front" } else { "back" });
                }
                r.push((z, some(rty, v)));
            }
            if let Some(z) = n {
                r.push((z, none(rty)));
            }
            Some(r)
        }
        "append" => {
            let src = e.seq_at(st, &a[1]);
            let q = e.seq_at(st, &a[0]);
            let q2 = appended(e, st, &q, &src, p);
            e.put_seq(st, &a[0], q2);
            let tpl = if src.tpl == Tpl::Any { Tpl::Any } else { Tpl::Bot };
            e.put_seq(st, &a[1], SeqV { c: lit(b""), len: Lin::k(0), tpl, q: vec![], ety: src.ety });
            one(st, unit_v)
        }
        "copy_from_slice" | "clone_from_slice" => {
            let q = e.sl(st, &a[1]);
            e.panic_check(st, "slices of equal length", &F::eq(&len, &q.len));
            let cc = e.mem.slice_content(st, &q);
            e.overwrite(st, &a[0], cc);
            one(st, unit_v)
        }
        "copy_within" | "fill" | "swap" | "sort_by" | "sort_by_key" | "rotate_left" => {
            e.emit(st, "reorder", vec![a[0].clone()], m);
            if m == "swap" {
                for i in 1..3 {
                    let x = e.int_arg(st, &a[i]);
                    e.panic_check(st, "index in bounds", &F::lt(&x, &len));
                }
            }
            e.clobber(st, &a[0]);
            one(st, unit_v)
        }
        "split_to" | "split_off" | "split" if p.starts_with("bytes::") || p.contains("vec::Vec") => {
            let i = if a.len() > 1 { e.int_arg(st, &a[1]) } else { len.clone() };
            e.panic_check(st, "split point in bounds", &F::le(&i, &len));
            let q = e.seq_at(st, &a[0]);
            let lo = SeqV { c: sl(q.c, &Lin::k(0), &i), len: i.clone(), q: vec![], ..q.clone() };
            let hi = SeqV { c: sl(q.c, &i, &q.len.sub(&i)), len: q.len.sub(&i), q: vec![], ..q };
            let (keep, ret) = if m == "split_off" { (lo, hi) } else { (hi, lo) };
            e.put_seq(st, &a[0], keep);
            one(st, V::Seq(Rc::new(ret)))
        }
        "advance" => {
            let i = e.int_arg(st, &a[1]);
            e.panic_check(st, "split point in bounds", &F::le(&i, &len));
            let q = e.seq_at(st, &a[0]);
            let n = SeqV { c: sl(q.c, &i, &q.len.sub(&i)), len: q.len.sub(&i), q: vec![], ..q };
            e.put_seq(st, &a[0], n);
            one(st, unit_v)
        }
        "drain" => {
            let (lo, hi) = e.range_arg(st, &a[1], tys[1], &len)?;
            e.panic_check(st, "slice range in bounds", &F::and(&F::le(&lo, &hi), &F::le(&hi, &len)));
            let q = e.seq_at(st, &a[0]);
            let nl = st.fx.norm(&q.len.sub(&hi.sub(&lo)));
            e.put_seq(st, &a[0], SeqV { c: fresh("drained"), len: nl, q: vec![], ..q });
            let v = e.mem.fresh("drain", rty);
            one(st, v)
        }
        "binary_search_by" | "binary_search" | "binary_search_by_key" => {
            // run the comparison on an arbitrary element so that it is analysed
            let mut r = vec![];
            let i = ulen("mid");
            if let (Some(mut z), _) = e.fork2(st, &F::lt(&i, &len)) {
                let v = e.elem_ref(&mut z, &s, &i);
                let okn = |r: &mut Outs, z: State| r.push((z, okv(rty, V::Int(i.clone()))));
                if m == "binary_search_by" {
                    for (mut w, o) in e.call_value(z, &a[1], vec![v], None) {
                        let dd = e.discr(&mut w, &o);
                        for k in [-1, 0, 1] {
                            if let (Some(mut x), _) = e.fork2(&w, &F::eq(&dd, &Lin::k(k))) {
                                e.emit(&mut x, "bs_cmp", vec![V::Slice(s.clone()), V::Int(i.clone()), V::int(k)], "");
                            }
                        }
                        if w.assume(&F::eq(&dd, &Lin::k(0))) {
                            okn(&mut r, w);
                        }
                    }
                } else {
                    if m == "binary_search_by_key" {
                        for (w, _) in e.call_value(z, &a[2], vec![v], None) {
                            okn(&mut r, w);
                        }
                    } else {
                        okn(&mut r, z);
                    }
                }
            }
            let j = ulen("ins");
            if let (Some(mut z), _) = e.fork2(st, &F::le(&j, &len)) {
                e.emit(&mut z, "bs_ins", vec![V::Slice(s.clone()), V::Int(j.clone())], "ne");
                r.push((z, errv(rty, V::Int(j))));
            }
            Some(r)
        }
        "partition_point" => {
            let i = ulen("mid");
            let mut r = vec![];
            if let (Some(mut z), _) = e.fork2(st, &F::lt(&i, &len)) {
                let v = e.elem_ref(&mut z, &s, &i);
                for (w, o) in e.call_value(z, &a[1], vec![v], None) {
                    let f = e.as_bool(&o);
                    let (y, n) = e.fork2(&w, &f);
                    for (x, k) in [(y, -1), (n, 2)] {
                        if let Some(mut x) = x {
                            e.emit(&mut x, "bs_cmp", vec![V::Slice(s.clone()), V::Int(i.clone()), V::int(k)], "");
                        }
                    }
                }
            }
            let j = ulen("part");
            if let (Some(mut z), _) = e.fork2(st, &F::le(&j, &len)) {
                e.emit(&mut z, "bs_ins", vec![V::Slice(s.clone()), V::Int(j.clone())], "");
                r.push((z, V::Int(j)));
            }
            Some(r)
        }
        "iter" | "iter_mut" => one(st, V::adt(rty, 0, vec![V::Slice(s)])),
        "bytes" if p.starts_with("core::str") => one(st, V::adt(rty, 0, vec![V::Slice(s)])),
        "concat" if p.contains("slice") => {
            // the elements of a constant array, one after the other
            let s = e.sl(st, &a[0]);
            let n = st.fx.norm(&s.len).is_const().filter(|n| *n <= 64)?;
            let el = e.mem.u8_ty;
            let mut q = SeqV { c: lit(b""), len: Lin::k(0), ety: el, tpl: Tpl::Any, q: vec![] };
            for i in 0..n {
                let v = e.mem.slice_elem(st, &s, &Lin::k(i));
                let src = match e.mem.as_slice(st, &v) {
                    Some(x) if x.seq.ety == el => x,
                    _ => return None,
                };
                let cc = e.mem.slice_content(st, &src);
                q.len = st.fx.norm(&q.len.add(&src.len));
                q.c = if i == 0 { cc } else { app("cat", vec![q.c, cc]) };
            }
            one(st, V::Seq(Rc::new(q)))
        }
        "join" if p.contains("slice") => None,
        "to_ascii_lowercase" | "to_ascii_uppercase" | "to_lowercase" | "to_uppercase" => {
            let cc = e.content(st, &a[0]);
            let t = app(m, vec![cc]);
            st.assume(&F::eq(&lt(len_t(t)), &len));
            let v = e.bytes_of(t);
            one(st, v)
        }
        "eq_ignore_ascii_case" => Some(e.fork_bool(st, fresh("eqic"), &[])),
        "as_ptr" | "as_mut_ptr" => one(st, V::Undef),
        "is_char_boundary" => Some(e.fork_bool(st, fresh("chb"), &[])),
        "chunks" | "chunks_exact" | "windows" if p.contains("slice") => {
            let n = e.int_arg(st, &a[1]);
            e.panic_check(st, "chunk size not zero", &F::ne(&n, &Lin::k(0)));
            one(st, V::adt(rty, 0, vec![V::Slice(s), V::Int(n)]))
        }
        "lines" | "split" | "splitn" | "chars" | "char_indices" | "split_whitespace" | "rsplit" | "rsplitn" => {
            // iterator over sub-slices or characters: opaque
            None
        }
        _ => None,
    }
}
/// Content of a sequence after growing or shrinking it to length n.
fn resized(st: &State, q: &SeqV, n: &Lin) -> T {
    if st.implies(&F::le(n, &q.len)) {
        return sl(q.c, &Lin::k(0), n);
    }
    fresh("resized")
}
/// The crate's own `From<a> for b`.
pub fn find_from(e: &Engine, from: Ty, to: Ty) -> Option<FnId> {
    let prog = &e.prog;
    for (i, f) in prog.fns.iter().enumerate() {
        if f.local && f.trait_.as_deref() == Some("std::convert::From") || f.path.ends_with("::from") && f.local && f.path.contains("std::convert::From<") {
            if let Some(b) = &f.body {
                if b.argc == 1 && b.locals[0] == to && b.locals[1] == from {
                    return Some(i);
                }
            }
        }
    }
    None
}

/// Text written to a formatter.
fn printed(e: &mut Engine, st: &mut State, d: &str, m: &str, a: &[V], tys: &[Ty]) {
    let to_fmt = |e: &Engine, i: usize| tys.get(i).map_or(false, |t| e.prog.ts(*t).contains("std::fmt::Formatter"));
    let what = match m {
        "fmt" if d == "std::fmt::Display::fmt" && is_seq_ty(e, peel(e, tys[0])) => Some(a[0].clone()),
        "write_str" | "pad" if to_fmt(e, 0) => Some(a[1].clone()),
        "write_fmt" if to_fmt(e, 0) => match &a[1] {
            V::Adt(x) if x.f.len() == 2 => {
                let t = e.content(st, &x.f[0]);
                let plain = lit_of(t).map_or(false, |b| b.len() == 2 && b[0] >= 0xc0 && b[1] == 0);
                match e.mem.as_slice(st, &x.f[1]) {
                    Some(s) if plain => match e.mem.slice_elem(st, &s, &Lin::k(0)) {
                        V::Adt(y) => y.f.first().cloned(),
                        _ => None,
                    },
                    _ => None,
                }
            }
            _ => None,
        },
        _ => None,
    };
    match what {
        Some(v) if e.mem.as_slice(st, &v).is_some() => e.emit(st, "printed", vec![v], ""),
        _ if (0..a.len()).any(|i| to_fmt(e, i)) => e.emit(st, "printed_other", vec![], ""),
        _ => {}
    }
}
fn misc(e: &mut Engine, st: &mut State, c: &Callee, d: &str, p: &str, a: &[V], tys: &[Ty], rty: Ty) -> Option<Outs> {
    let m = last(p).to_string();
    let m = m.as_str();
    // formatting has no effect the properties speak about, and does not fail by itself
    if d.starts_with("std::fmt::") || d.starts_with("core::fmt::") || d.starts_with("thiserror::") || p.starts_with("std::fmt::") || d == "std::string::ToString::to_string" {
        if rty == u32::MAX {
            return one(st, V::Undef);
        }
        if d == "std::fmt::format" || d == "std::string::ToString::to_string" {
            let v = e.mem.fresh("formatted", rty);
            return one(st, v);
        }
        printed(e, st, d, m, a, tys);
        // what is printed may be a value of the crate: its formatting code is analysed as a root
        let v = e.mem.fresh("fmt", rty);
        return one(st, v);
    }
    match p {
        "memchr::memchr" | "memchr::memrchr" | "memchr::memchr2" | "bstr::ByteSlice::find_byte" | "bstr::ByteSlice::rfind_byte" => {
            let k = if p.ends_with("2") { 2 } else { 1 };
            let method = p.starts_with("bstr");
            let s = e.sl(st, &a[if method { 0 } else { k }]);
            let n = e.int_arg(st, &a[if method { 1 } else { 0 }]);
            let m = match m {
                "find_byte" => "memchr",
                "rfind_byte" => "memrchr",
                m => m,
            };
            let cc = e.mem.slice_content(st, &s);
            if let (Some(b), true) = (lit_of(cc), m != "memchr2") {
                if b.len() <= 8 {
                    let mut r = vec![];
                    let mut no = st.clone();
                    let mut order: Vec<usize> = (0..b.len()).collect();
                    if m == "memrchr" {
                        order.reverse();
                    }
                    for j in order {
                        let f = F::eq(&n, &Lin::k(b[j] as i128));
                        let mut y = no.clone();
                        y.assume(&f);
                        no.assume(&f.not());
                        if !y.fx.bot {
                            r.push((y, some(rty, V::int(j as i128))));
                        }
                    }
                    if !no.fx.bot {
                        r.push((no, none(rty)));
                    }
                    return Some(r);
                }
            }
            let i = mk(sym(m), vec![tl(&n), cc], Some((0, MAXLEN)));
            let has = app("has", vec![cc, tl(&n)]);
            let mut r = vec![];
            for (mut z, v) in e.fork_bool(st, has, &[F::lt(&lt(i), &s.len)]) {
                if v == V::Bool(F::T) {
                    if k == 1 {
                        let el = lt(sel(s.seq.c, &z.fx.norm(&s.off.add(&lt(i))), Some((0, 255))));
                        z.assume(&F::eq(&el, &n));
                        e.emit(&mut z, "found", vec![V::Slice(s.clone()), V::Int(n.clone()), V::Int(lt(i))], m);
                    }
                    r.push((z, some(rty, V::Int(lt(i)))));
                } else {
                    if k == 1 {
                        e.emit(&mut z, "absent", vec![V::Slice(s.clone()), V::Int(n.clone())], m);
                    }
                    r.push((z, none(rty)));
                }
            }
            return Some(r);
        }
        "hex::encode" | "hex::encode_upper" => {
            let s = e.sl(st, &a[0]);
            let cc = e.mem.slice_content(st, &s);
            let t = app(if p.ends_with("upper") { "hexupper" } else { "hexenc" }, vec![cc]);
            st.assume(&F::eq(&lt(len_t(t)), &s.len.scale(2)));
            let v = e.bytes_of(t);
            return one(st, v);
        }
        "hex::decode" => {
            let s = e.sl(st, &a[0]);
            let cc = e.mem.slice_content(st, &s);
            let t = app("hexdec", vec![cc]);
            let okt = app("hexok", vec![cc]);
            let mut r = vec![];
            for (mut z, v) in e.fork_bool(st, okt, &[]) {
                if v == V::Bool(F::T) {
                    z.assume(&F::eq(&lt(len_t(t)).scale(2), &s.len));
                    let v = e.bytes_of(t);
                    r.push((z, okv(rty, v)));
                } else {
                    let er = e.mem.fresh("hex_err", targ(e, rty, 1));
                    r.push((z, errv(rty, er)));
                }
            }
            return Some(r);
        }
        "hex::decode_to_slice" => {
            let s = e.sl(st, &a[0]);
            let o = e.sl(st, &a[1]);
            let cc = e.mem.slice_content(st, &s);
            let okt = app("hexok", vec![cc]);
            let mut r = vec![];
            let oty = targ(e, rty, 0);
            for (mut z, v) in e.fork_bool(st, okt, &[F::eq(&s.len, &o.len.scale(2))]) {
                if v == V::Bool(F::T) {
                    e.overwrite(&mut z, &a[1], app("hexdec", vec![cc]));
                    e.emit(&mut z, "hexdecoded", vec![a[0].clone(), a[1].clone()], "");
                    r.push((z, okv(rty, V::adt(oty, 0, vec![]))));
                } else {
                    e.clobber(&mut z, &a[1]);
                    let er = e.mem.fresh("hex_err", targ(e, rty, 1));
                    r.push((z, errv(rty, er)));
                }
            }
            return Some(r);
        }
        _ => {}
    }
    if d == "hex::FromHex::from_hex" {
        let s = e.sl(st, &a[0]);
        let cc = e.mem.slice_content(st, &s);
        let okt = app("hexok", vec![cc]);
        let arr = targ(e, rty, 0);
        let n = match e.prog.k(arr) {
            TK::Array(_, Some(n)) => *n,
            _ => return None,
        };
        let mut r = vec![];
        for (z, v) in e.fork_bool(st, okt, &[F::eq(&s.len, &Lin::k(2 * n))]) {
            if v == V::Bool(F::T) {
                let t = app("hexdec", vec![cc]);
                let el = e.mem.u8_ty;
                r.push((z, okv(rty, V::Seq(Rc::new(SeqV { c: t, len: Lin::k(n), ety: el, tpl: Tpl::Any, q: vec![] })))));
            } else {
                let er = e.mem.fresh("hex_err", targ(e, rty, 1));
                r.push((z, errv(rty, er)));
            }
        }
        return Some(r);
    }
    if d.starts_with("sha1::Digest::") || d.starts_with("digest::") {
        let t = match m {
            "new" => app("sha_new", vec![]),
            "chain" | "update" | "input" | "chain_update" => {
                let cc = e.content(st, &a[1]);
                let base = match e.mem.deref_all(st, &a[0]) {
                    V::Opq(t, _) => t,
                    _ => fresh("digest"),
                };
                app("sha", vec![base, cc])
            }
            "finalize" | "digest" | "result" | "finalize_reset" => {
                let base = match e.mem.deref_all(st, &a[0]) {
                    V::Opq(t, _) => t,
                    V::Slice(s) => app("sha", vec![app("sha_new", vec![]), e.mem.slice_content(st, &s)]),
                    _ => fresh("digest"),
                };
                app("sha_final", vec![base])
            }
            _ => return None,
        };
        if m == "update" || m == "input" {
            if let V::Ref(q) = &a[0] {
                let ty = peel(e, tys[0]);
                e.mem.write(st, &q.clone(), V::Opq(t, ty));
            }
            return one(st, V::adt(rty, 0, vec![]));
        }
        return one(st, V::Opq(t, rty));
    }
    if (d == "std::convert::Into::into" || d == "std::convert::From::from") && path_of(e, tys[0]).contains("GenericArray") {
        if let (V::Opq(t, _), TK::Array(el, Some(n))) = (&a[0], e.prog.k(rty).clone()) {
            let cc = app("bytes_of", vec![*t]);
            return one(st, V::Seq(Rc::new(SeqV { c: cc, len: Lin::k(n), ety: el, tpl: Tpl::Any, q: vec![] })));
        }
    }
    if p.contains("zerocopy::LayoutVerified") || p.contains("zerocopy::Ref::") {
        match m {
            "new" | "new_slice" | "new_unaligned" | "new_slice_unaligned" | "new_from_prefix" | "new_unaligned_from_prefix" | "new_slice_from_prefix" => {
                let s = e.sl(st, &a[0]);
                // LayoutVerified<B, T>: the element type is its second argument
                let lv = targ(e, rty, 0);
                let lv = if e.prog.k(lv).clone_is_tuple() { lv } else { lv };
                let t = targ(e, lv, 1);
                let mut r = vec![];
                match e.prog.k(t).clone() {
                    TK::Slice(el) => {
                        let sz = e.prog.types[el as usize].size.unwrap_or(1).max(1);
                        let n = ulen("cast");
                        let (y, no) = (F::eq(&s.len, &n.scale(sz)), ());
                        let _ = no;
                        let (y, _) = e.fork2(st, &y);
                        if let Some(z) = y {
                            let cc = e.mem.slice_content(&z, &s);
                            let seq = SeqV { c: app(&format!("cast:{}", e.prog.ts(el)), vec![cc]), len: n.clone(), ety: el, tpl: Tpl::Any, q: vec![] };
                            r.push((z, some(rty, V::adt(lv, 0, vec![slice_v(Rc::new(seq), None)]))));
                        }
                        // the length is not a multiple
                        let q = e.divmod(&mut st.clone(), &s.len, sz);
                        let mut z = st.clone();
                        let rem = s.len.add_scaled(&q, -sz);
                        if z.assume(&F::le(&Lin::k(1), &rem)) && z.assume(&F::le(&rem, &Lin::k(sz - 1))) {
                            r.push((z, none(rty)));
                        }
                    }
                    _ => {
                        let sz = e.prog.types[t as usize].size.unwrap_or(1);
                        let f = if m.contains("prefix") { F::le(&Lin::k(sz), &s.len) } else { F::eq(&s.len, &Lin::k(sz)) };
                        let (y, no) = e.fork2(st, &f);
                        if let Some(mut z) = y {
                            let cc = e.mem.slice_content(&z, &s);
                            let v = e.mem.mat(app(&format!("cast:{}", e.prog.ts(t)), vec![cc]), t);
                            let rf = e.mem.temp_ref(&mut z, v, t);
                            r.push((z, some(rty, V::adt(lv, 0, vec![rf]))));
                        }
                        if let Some(z) = no {
                            r.push((z, none(rty)));
                        }
                    }
                }
                return Some(r);
            }
            "into_ref" | "into_slice" | "into_mut" => {
                if let V::Adt(x) = &a[0] {
                    return one(st, x.f[0].clone());
                }
            }
            _ => {}
        }
    }
    if (p.starts_with("zerocopy::U") || p.contains("zerocopy::U")) && (m == "new" || m == "from") && a.len() == 1 && e.prog.adt_path(rty).starts_with("zerocopy::U") {
        if let V::Int(l) = &a[0] {
            let x = fresh("be");
            let n = match e.prog.types[rty as usize].size.unwrap_or(4) {
                2 => 0xffff,
                4 => 0xffff_ffff,
                _ => u64::MAX as i128,
            };
            let w = mk("word", vec![x], Some((0, n)));
            st.assume(&F::eq(&lt(w), l));
            return one(st, V::Opq(x, rty));
        }
    }
    if p.starts_with("zerocopy::U") && m == "get" {
        let v = e.mem.deref_all(st, &a[0]);
        let (t, n) = (match &v {
            V::Opq(t, _) => *t,
            V::Seq(s) => s.c,
            V::Adt(_) => fresh("word"),
            _ => fresh("word"),
        }, e.prog.int_range(rty)?);
        let t = mk("word", vec![t], Some(n));
        return one(st, V::Int(lt(t)));
    }
    if d.starts_with("byteorder::ByteOrder::read_u") {
        let s = e.sl(st, &a[0]);
        let n: i128 = m.trim_start_matches("read_u").parse::<i128>().unwrap_or(8) / 8;
        e.panic_check(st, "slice long enough", &F::le(&Lin::k(n), &s.len));
        let mut l = Lin::k(0);
        for i in 0..n {
            let b = sel(s.seq.c, &st.fx.norm(&s.off.addc(i)), Some((0, 255)));
            let sh = if p.contains("BigEndian") { 8 * (n - 1 - i) } else { 8 * i };
            l = l.add(&lt(b).scale(1i128 << sh));
        }
        return one(st, V::Int(l));
    }
    if p.starts_with("regex::bytes::") || p.starts_with("regex::") {
        let recv = e.mem.deref_all(st, &a.first().cloned().unwrap_or(V::Undef));
        let rt = match &recv {
            V::Opq(t, _) => *t,
            _ => fresh("regex"),
        };
        match m {
            "new" if p.contains("Builder") => {
                let pat = e.content(st, &a[0]);
                let v = V::Opq(app("regex", vec![pat]), rty);
                return one(st, v);
            }
            "unicode" | "build" if is_app(rt, "regex").is_some() && p.contains("Builder") => {
                if m == "build" {
                    return one(st, okv(rty, V::Opq(rt, targ(e, rty, 0))));
                }
                if a[1] == V::Bool(F::F) {
                    if let (Some(b), V::Ref(q)) = (lit_of(is_app(rt, "regex").unwrap()[0]), &a[0]) {
                        let ty = e.mem.ptr_elem(tys[0]).unwrap_or(0);
                        let v = V::Opq(app("regex", vec![lit(&[&b"(?-u)"[..], &b[..]].concat())]), ty);
                        e.mem.write(st, &q.clone(), v);
                        return one(st, a[0].clone());
                    }
                }
            }
            "new" => {
                let pat = e.content(st, &a[0]);
                let v = V::Opq(app("regex", vec![pat]), targ(e, rty, 0));
                // patterns in the crate are constants
                return one(st, okv(rty, v));
            }
            "is_match" => {
                let cc = e.content(st, &a[1]);
                let t = app("rematch", vec![rt, cc]);
                return Some(e.fork_bool(st, t, &[]));
            }
            "captures" | "find" => {
                let cc = e.content(st, &a[1]);
                let t = app("rematch", vec![rt, cc]);
                let ct = targ(e, rty, 0);
                let mut r = vec![];
                for (z, v) in e.fork_bool(st, t, &[]) {
                    if v == V::Bool(F::T) {
                        let caps = app("caps", vec![rt, cc]);
                        let x = if m == "find" { app("group", vec![caps, tl(&Lin::k(0))]) } else { caps };
                        r.push((z, some(rty, V::Opq(x, ct))));
                    } else {
                        r.push((z, none(rty)));
                    }
                }
                return Some(r);
            }
            "get" => {
                let i = e.int_arg(st, &a[1]);
                let mt = targ(e, rty, 0);
                let v = V::Opq(app("group", vec![rt, tl(&i)]), mt);
                let always = match (is_app(rt, "caps"), i.is_const()) {
                    (Some(x), Some(k)) => crate::mio::group_always(e, x[0], k),
                    _ => None,
                };
                let mut r = vec![];
                match always {
                    Some(true) => r.push((st.clone(), some(rty, v))),
                    Some(false) | None => {
                        let t = app("group_set", vec![rt, tl(&i)]);
                        for (z, b) in e.fork_bool(st, t, &[]) {
                            r.push((z, if b == V::Bool(F::T) { some(rty, v.clone()) } else { none(rty) }));
                        }
                    }
                }
                return Some(r);
            }
            "as_bytes" | "as_str" => {
                let v = e.view(app("matched", vec![rt]));
                return one(st, v);
            }
            "start" | "end" => {
                let t = mk(sym(m), vec![rt], Some((0, MAXLEN)));
                return one(st, V::Int(lt(t)));
            }
            _ => {}
        }
    }
    if p.starts_with("<once_cell::sync::Lazy") || p.contains("LazyLock") {
        // the value of a static: one per type and place
        let key = match &a[0] {
            V::Ref(q) => match q.root {
                Root_::Heap(t) => t,
                _ => fresh("lazy"),
            },
            V::Opq(t, _) => *t,
            _ => fresh("lazy"),
        };
        let h = app("lazy", vec![key]);
        let ty = peel(e, rty);
        e.mem.heap_ty.insert(h, ty);
        return one(st, V::Ref(Ptr::heap(h)));
    }
    match p {
        "std::boxed::Box::<T>::new" | "std::sync::Arc::<T>::new" | "std::rc::Rc::<T>::new" | "std::boxed::Box::<T>::pin" => {
            let t = targ(e, rty, 0);
            let h = fresh("box");
            e.mem.heap_ty.insert(h, t);
            Rc::make_mut(&mut st.heap).insert(h, a[0].clone());
            return one(st, V::Ref(Ptr::heap(h)));
        }
        "std::sync::Arc::<T>::ptr_eq" | "std::rc::Rc::<T>::ptr_eq" => return Some(e.fork_bool(st, fresh("ptr_eq"), &[])),
        "std::boxed::Box::<T>::new_uninit" => {
            let h = fresh("box");
            let t = targ(e, rty, 0);
            e.mem.heap_ty.insert(h, t);
            Rc::make_mut(&mut st.heap).insert(h, V::Undef);
            return one(st, V::Ref(Ptr::heap(h)));
        }
        "std::boxed::box_assume_init_into_vec_unsafe" => {
            // vec![..]: the array written into the box
            let v = e.mem.deref_all(st, &a[0]);
            let v = match v {
                V::Adt(x) => dig_seq(&V::Adt(x)).unwrap_or(V::Undef),
                x => x,
            };
            if let V::Seq(q) = v {
                return one(st, V::Seq(q));
            }
            let v = e.mem.fresh("vec", rty);
            return one(st, v);
        }
        "std::mem::drop" | "std::mem::forget" => {
            if m == "drop" {
                e.drop_value(st, &a[0], tys[0]);
            }
            return one(st, V::adt(rty, 0, vec![]));
        }
        "std::process::id" | "std::time::Instant::now" | "filetime::FileTime::now" | "std::time::Instant::elapsed" | "std::time::SystemTime::now" => {
            let v = e.mem.fresh(m, rty);
            return one(st, v);
        }
        _ => {}
    }
    if d == "std::cmp::PartialOrd::partial_cmp" || d == "std::cmp::PartialOrd::lt" {
        let v = e.mem.fresh("cmp", rty);
        return one(st, v);
    }
    if d == "std::error::Error::source" || d == "std::hash::Hash::hash" || d.starts_with("std::any::") || p.contains("sync::atomic::") || p.starts_with("std::time::") {
        let v = e.mem.fresh(m, rty);
        return one(st, v);
    }
    if d == "std::convert::Into::into" || d == "std::convert::From::from" {
        // an opaque conversion is a function of its argument
        if let (V::Opq(t, _), true) = (&a[0], rty != u32::MAX) {
            let v = e.mem.mat({ let n = lit(e.prog.ts(rty).as_bytes()); app("into", vec![*t, n]) }, rty);
            return one(st, v);
        }
    }
    if d == "std::ops::FnMut::call_mut" || d == "std::ops::FnOnce::call_once" || d == "std::ops::Fn::call" {
        let v = e.mem.fresh("called", rty);
        return one(st, v);
    }
    let _ = c;
    None
}
pub fn dig_seq(v: &V) -> Option<V> {
    match v {
        V::Seq(_) => Some(v.clone()),
        V::Adt(a) => a.f.iter().filter_map(dig_seq).next(),
        _ => None,
    }
}
impl TK {
    pub fn clone_is_tuple(&self) -> bool {
        matches!(self, TK::Tuple(_))
    }
}
#[allow(unused)]
fn _unused(_: &Facts, _: &BTreeSet<T>, _: &HashSet<T>) {}
/// One list followed by another.
pub fn appended(e: &mut Engine, st: &mut State, q: &SeqV, src: &SeqV, p: &str) -> SeqV {
    let mut q2 = q.clone();
    let empty = st.implies(&F::eq(&q.len, &Lin::k(0)));
    match (&q.tpl, &src.tpl) {
        (_, Tpl::Bot) => {}
        (Tpl::Bot, t) => q2.tpl = t.clone(),
        (_, t) if empty => q2.tpl = t.clone(),
        (Tpl::Any, _) | (_, Tpl::Any) => q2.tpl = Tpl::Any,
        _ => {
            let i = ulen("elem");
            let v = e.mem.elem(st, &src, &i);
            q2.tpl = join::push_tpl(&mut e.mem, st, &q, &v);
        }
    }
    q2.c = app("cat", vec![q.c, src.c]);
    e.emit(st, "appended", vec![V::Int(lt(q.c)), V::Int(lt(src.c))], p);
    q2.len = q.len.add(&src.len);
    q2.q.clear();
    st.assume(&F::le(&q2.len, &Lin::k(MAXLEN)));
    q2
}
