// Calls are analysed on the part of the state they can reach; results are kept per call state
// (up to renaming) so that the same abstract call is analysed once.
use crate::exec::*;
use crate::facts::Facts;
use crate::mio::{leaves, v_leaves};
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};
use crate::fx::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Default)]
pub struct Cache {
    map: HashMap<(u64, u64), Rc<Entry>>,
    pub hits: u64,
    pub misses: u64,
    pub impure: u64,
    pub stat: BTreeMap<FnId, (u64, u64, u128, u64, usize)>,
}
struct Entry {
    slots: Vec<(u32, u32)>,
    leaves: Vec<T>,
    outs: Vec<(State, V)>,
}
struct Reach {
    slots: Vec<(u32, u32)>,
    slotset: HashSet<(u32, u32)>,
    cells: BTreeSet<T>,
    lv: HashSet<T>,
}
fn v_slots(v: &V, out: &mut Vec<(u32, u32)>) {
    let mut p = |p: &Ptr| {
        if let Root_::Local(d, l) = p.root {
            out.push((d, l))
        }
    };
    match v {
        V::Ref(q) => p(q),
        V::Slice(s) => {
            if let Some(q) = &s.loc {
                p(q)
            }
            if let Tpl::V(t) = &s.seq.tpl {
                v_slots(&t.v, out)
            }
        }
        V::Seq(s) => {
            if let Tpl::V(t) = &s.tpl {
                v_slots(&t.v, out)
            }
        }
        V::Adt(a) => a.f.iter().for_each(|x| v_slots(x, out)),
        _ => {}
    }
}
fn all_in(t: T, lv: &HashSet<T>) -> bool {
    deep(t).iter().all(|x| !is_fresh(*x) || lv.contains(x))
}
fn lin_in(l: &Lin, lv: &HashSet<T>) -> bool {
    l.m.iter().all(|(a, _)| all_in(*a, lv))
}
impl Engine {
    fn reach(&mut self, st: &State, args: &[V]) -> Reach {
        let mut r = Reach { slots: vec![], slotset: HashSet::default(), cells: BTreeSet::new(), lv: HashSet::default() };
        let mut work: Vec<V> = args.to_vec();
        work.extend(st.gv.values().cloned());
        work.reverse();
        loop {
            while let Some(v) = work.pop() {
                let mut sl = vec![];
                v_slots(&v, &mut sl);
                for s in sl {
                    if (s.0 as usize) < st.fr.len() && r.slotset.insert(s) {
                        r.slots.push(s);
                        if let Some(x) = st.fr[s.0 as usize].get(s.1 as usize) {
                            work.push(x.clone());
                        }
                    }
                }
                let mut lv = BTreeSet::new();
                let mut roots = vec![];
                v_leaves(&v, &mut lv, &mut roots);
                r.lv.extend(lv);
                for c in roots {
                    if r.cells.insert(c) {
                        if let Some(x) = st.heap.get(&c) {
                            work.push(x.clone());
                        }
                    }
                }
            }
            let mut grew = false;
            for (x, l) in &st.fx.eq {
                if all_in(*x, &r.lv) {
                    for (a, _) in &l.m {
                        let mut s = BTreeSet::new();
                        leaves(*a, &mut s);
                        for y in s {
                            grew |= r.lv.insert(y);
                        }
                    }
                }
            }
            for (k, v) in st.heap.iter() {
                if !is_fresh(*k) && !r.cells.contains(k) && all_in(*k, &r.lv) {
                    r.cells.insert(*k);
                    work.push(v.clone());
                    grew = true;
                }
            }
            if !grew && work.is_empty() {
                break;
            }
        }
        r
    }
    pub fn exec_fn(&mut self, st: State, f: FnId, args: Vec<V>) -> Vec<(State, V)> {
        let prog = self.prog.clone();
        if self.cuts.contains(&f) {
            let mut st = st;
            let ty = match &prog.fns[f].body {
                Some(b) => b.locals[0],
                None => return vec![],
            };
            let v = self.mem.fresh("result", ty);
            let mut x = args;
            x.push(v.clone());
            let path = prog.fns[f].inst.clone();
            self.emit(&mut st, "cut", x, &path);
            return vec![(st, v)];
        }
        let big = match &prog.fns[f].body {
            Some(b) => b.blocks.len() >= 8 || !b.loops.is_empty(),
            None => return vec![],
        };
        if !big || self.no_frame || self.stack.contains(&f) {
            return self.exec_raw(st, f, args);
        }
        let r = self.reach(&st, &args);
        // the reachable part
        let mut sub = State::new();
        sub.gh = st.gh.clone();
        sub.gv = st.gv.clone();
        sub.fr = st.fr.iter().map(|x| self.blank(x.len())).collect();
        for (d, l) in &r.slots {
            if let Some(v) = st.fr[*d as usize].get(*l as usize) {
                if !v.is_undef() {
                    Rc::make_mut(&mut sub.fr[*d as usize])[*l as usize] = v.clone();
                }
            }
        }
        sub.heap = Rc::new(st.heap.iter().filter(|(k, _)| r.cells.contains(k)).map(|(k, v)| (*k, v.clone())).collect());
        let mut fx = Facts::default();
        for (x, l) in &st.fx.eq {
            if all_in(*x, &r.lv) {
                fx.eq.insert(*x, l.clone());
            }
        }
        fx.le = st.fx.le.iter().filter(|l| lin_in(l, &r.lv)).cloned().collect();
        fx.ne = st.fx.ne.iter().filter(|l| lin_in(l, &r.lv)).cloned().collect();
        sub.fx = Rc::new(fx);
        let mut c = Canon { num: HashMap::default(), order: vec![], memo: HashMap::default(), slots: r.slots.iter().enumerate().map(|(i, s)| (*s, i as u64)).collect() };
        let key = c.key(f, &sub, &args, &r.slots);
        let mut outs: Option<Vec<(State, V)>> = None;
        for dry in [0u64, 1] {
            if dry == 1 && self.dry == 0 {
                break;
            }
            let k = (key.0 ^ dry, key.1);
            if let Some(en) = self.cache.map.get(&k).cloned() {
                if en.slots.len() == r.slots.len() && en.leaves.len() == c.order.len() {
                    self.cache.hits += 1;
                    outs = Some(self.replay(&en, &sub, &r.slots, &c.order));
                    break;
                }
            }
        }
        let outs = match outs {
            Some(o) => {
                self.cache.stat.entry(f).or_default().1 += 1;
                o
            }
            None => {
                let before = self.impure;
                let (t0, s0) = (std::time::Instant::now(), self.steps);
                self.protect.push(Rc::new(r.lv.clone()));
                self.kept.push(Rc::new(r.cells.clone()));
                let o = self.exec_raw(sub, f, args);
                self.protect.pop();
                self.kept.pop();
                let ds = self.steps - s0;
                let e = self.cache.stat.entry(f).or_default();
                e.0 += 1;
                e.2 += t0.elapsed().as_millis();
                e.3 += ds;
                e.4 = e.4.max(o.len());
                if self.impure == before && !self.exhausted {
                    self.cache.misses += 1;
                    let k = (key.0 ^ if self.dry > 0 { 1 } else { 0 }, key.1);
                    self.cache.map.insert(k, Rc::new(Entry { slots: r.slots.clone(), leaves: c.order, outs: o.clone() }));
                } else {
                    self.cache.impure += 1;
                }
                o
            }
        };
        outs.into_iter().map(|(s, v)| (self.unframe(&st, s, &r), v)).collect()
    }
    fn blank(&mut self, n: usize) -> Rc<Vec<V>> {
        self.blanks.entry(n).or_insert_with(|| Rc::new(vec![V::Undef; n])).clone()
    }
    /// Puts a result back into the state of the caller.
    fn unframe(&mut self, st: &State, mut s: State, r: &Reach) -> State {
        let mut fr = st.fr.clone();
        for (d, l) in &r.slots {
            let v = s.fr[*d as usize].get(*l as usize).cloned().unwrap_or(V::Undef);
            if let Some(o) = fr[*d as usize].get(*l as usize) {
                if *o != v {
                    Rc::make_mut(&mut fr[*d as usize])[*l as usize] = v;
                }
            }
        }
        s.fr = fr;
        let missing: Vec<(T, V)> = st.heap.iter().filter(|(k, _)| !r.cells.contains(k)).map(|(k, v)| (*k, v.clone())).collect();
        if !missing.is_empty() {
            let h = Rc::make_mut(&mut s.heap);
            for (k, v) in missing {
                h.entry(k).or_insert(v);
            }
        }
        // the facts about the rest
        let fx = Rc::make_mut(&mut s.fx);
        let mut later: Vec<F> = vec![];
        let new: Vec<T> = fx.eq.keys().filter(|k| !st.fx.eq.contains_key(k)).cloned().collect();
        let touched = |l: &Lin| !new.is_empty() && l.m.iter().any(|(a, _)| { let d = deep(*a); new.iter().any(|x| d.contains(x)) });
        for (x, l) in &st.fx.eq {
            if all_in(*x, &r.lv) {
                continue;
            }
            if touched(&Lin::atom(*x)) || touched(l) {
                later.push(F::Eq(Lin::atom(*x).sub(l)));
            } else {
                fx.eq.insert(*x, l.clone());
            }
        }
        for l in &st.fx.le {
            if !lin_in(l, &r.lv) {
                if touched(l) {
                    later.push(F::Le(l.clone()));
                } else {
                    fx.le.push(l.clone());
                }
            }
        }
        for l in &st.fx.ne {
            if !lin_in(l, &r.lv) {
                if touched(l) {
                    later.push(F::Ne(l.clone()));
                } else {
                    fx.ne.push(l.clone());
                }
            }
        }
        for f in later {
            fx.assume(&f);
        }
        s
    }
    /// A stored result, renamed to the call at hand.
    fn replay(&mut self, en: &Entry, sub: &State, slots: &[(u32, u32)], order: &[T]) -> Vec<(State, V)> {
        let mut out = vec![];
        let base: HashMap<T, T> = en.leaves.iter().cloned().zip(order.iter().cloned()).collect();
        let smap: HashMap<(u32, u32), (u32, u32)> = en.slots.iter().cloned().zip(slots.iter().cloned()).collect();
        for (s, v) in &en.outs {
            let map = std::cell::RefCell::new(base.clone());
            let f = |t: T| -> Option<Lin> {
                if !is_fresh(t) {
                    return None;
                }
                if let Some(x) = map.borrow().get(&t) {
                    return if *x == t { None } else { Some(Lin::atom(*x)) };
                }
                let n = refresh(t);
                map.borrow_mut().insert(t, n);
                Some(Lin::atom(n))
            };
            let tc = |d: &BTreeSet<T>| !d.is_empty();
            let sb = Subst::new(&f, &tc);
            let mut n = State::new();
            n.gh = s.gh.clone();
            n.fr = sub.fr.clone();
            for (a, b) in &smap {
                let x = s.fr[a.0 as usize].get(a.1 as usize).cloned().unwrap_or(V::Undef);
                let x = self.mem.subst_v(&x, &sb);
                let x = mv_slots(x, &smap);
                if n.fr[b.0 as usize].get(b.1 as usize) != Some(&x) && (b.1 as usize) < n.fr[b.0 as usize].len() {
                    Rc::make_mut(&mut n.fr[b.0 as usize])[b.1 as usize] = x;
                }
            }
            let mut heap = BTreeMap::new();
            for (k, x) in s.heap.iter() {
                let nk = sb.t(*k);
                if nk != *k {
                    if let Some(ty) = self.mem.heap_ty.get(k).cloned() {
                        self.mem.heap_ty.insert(nk, ty);
                    }
                }
                let x = self.mem.subst_v(x, &sb);
                heap.insert(nk, mv_slots(x, &smap));
            }
            n.heap = Rc::new(heap);
            let mut gv = BTreeMap::new();
            for (k, x) in s.gv.iter() {
                let x = self.mem.subst_v(x, &sb);
                gv.insert(k.clone(), mv_slots(x, &smap));
            }
            n.gv = Rc::new(gv);
            let mut fx = Facts::default();
            fx.bot = s.fx.bot;
            let mut odd = vec![];
            for (x, l) in &s.fx.eq {
                let nx = sb.t(*x);
                let nl = sb.lin(l);
                if matches!(kind(nx), K::Fresh(..) | K::App(..)) {
                    fx.eq.insert(nx, nl);
                } else {
                    odd.push(F::eq(&lt(nx), &nl));
                }
            }
            fx.le = s.fx.le.iter().map(|l| sb.lin(l)).collect();
            fx.ne = s.fx.ne.iter().map(|l| sb.lin(l)).collect();
            for f in odd {
                fx.assume(&f);
            }
            n.fx = Rc::new(fx);
            let v = self.mem.subst_v(v, &sb);
            out.push((n, mv_slots(v, &smap)));
        }
        out
    }
}
fn mv_ptr(p: &Ptr, m: &HashMap<(u32, u32), (u32, u32)>) -> Ptr {
    match p.root {
        Root_::Local(d, l) => match m.get(&(d, l)) {
            Some(n) => Ptr { root: Root_::Local(n.0, n.1), path: p.path.clone() },
            None => p.clone(),
        },
        _ => p.clone(),
    }
}
fn mv_slots(v: V, m: &HashMap<(u32, u32), (u32, u32)>) -> V {
    let mut s = vec![];
    v_slots(&v, &mut s);
    if s.iter().all(|x| m.get(x).map_or(true, |y| y == x)) {
        return v;
    }
    fn seq(q: &SeqV, m: &HashMap<(u32, u32), (u32, u32)>) -> SeqV {
        let mut n = q.clone();
        if let Tpl::V(t) = &q.tpl {
            n.tpl = Tpl::V(Rc::new(TplV { v: mv_slots(t.v.clone(), m), gs: t.gs.clone(), fs: t.fs.clone() }));
        }
        n
    }
    match &v {
        V::Ref(p) => V::Ref(mv_ptr(p, m)),
        V::Slice(x) => {
            let mut n = (**x).clone();
            n.seq = Rc::new(seq(&x.seq, m));
            n.loc = x.loc.as_ref().map(|p| mv_ptr(p, m));
            V::Slice(Rc::new(n))
        }
        V::Seq(x) => V::Seq(Rc::new(seq(x, m))),
        V::Adt(a) => V::Adt(Rc::new(AdtV { ty: a.ty, var: a.var, f: a.f.iter().map(|x| mv_slots(x.clone(), m)).collect() })),
        _ => v,
    }
}

/// Structural hashing up to the names of fresh atoms and the positions of stack slots.
struct Canon {
    num: HashMap<T, u64>,
    order: Vec<T>,
    memo: HashMap<T, (u64, u64)>,
    slots: HashMap<(u32, u32), u64>,
}
type H = (u64, u64);
fn mix(h: H, x: u64) -> H {
    let a = (h.0 ^ x).wrapping_mul(0x9E37_79B9_7F4A_7C15);
    let a = a ^ (a >> 29);
    let b = (h.1.rotate_left(23) ^ x.wrapping_mul(0xC2B2_AE3D_27D4_EB4F)).wrapping_mul(0x1656_67B1_9E37_79F9);
    (a.wrapping_mul(0xBF58_476D_1CE4_E5B9) ^ (a >> 32), b ^ (b >> 31))
}
fn mixh(h: H, x: H) -> H {
    mix(mix(h, x.0), x.1)
}
fn add(h: H, x: H) -> H {
    (h.0.wrapping_add(x.0), h.1.wrapping_add(x.1))
}
fn i(h: H, x: i128) -> H {
    mix(mix(h, x as u64), (x >> 64) as u64)
}
fn strh(s: &[u8]) -> H {
    let mut h = (7, 11);
    for b in s {
        h = mix(h, *b as u64);
    }
    h
}
impl Canon {
    fn t(&mut self, t: T) -> H {
        if let Some(h) = self.memo.get(&t) {
            return *h;
        }
        let h = match kind(t) {
            K::Fresh(..) => {
                let n = self.order.len() as u64;
                let n = *self.num.entry(t).or_insert_with(|| {
                    self.order.push(t);
                    n
                });
                let mut h = mix((1, 1), n);
                if let Some((a, b)) = range(t) {
                    h = i(i(h, a), b);
                }
                h
            }
            K::App(f, a) => {
                let mut h = mixh((2, 2), strh(f.as_bytes()));
                for x in a {
                    let y = self.t(x);
                    h = mixh(h, y);
                }
                h
            }
            K::Lin(l) => self.lin(&l),
            K::Lit(b) => mixh((3, 3), strh(&b)),
        };
        self.memo.insert(t, h);
        h
    }
    fn lin(&mut self, l: &Lin) -> H {
        let mut s = (0, 0);
        for (a, k) in &l.m {
            let h = self.t(*a);
            s = add(s, i(mixh((4, 4), h), *k));
        }
        i(mixh((5, 5), s), l.c)
    }
    fn f(&mut self, f: &F) -> H {
        match f {
            F::T => (61, 1),
            F::F => (62, 1),
            F::Le(l) => {
                let h = self.lin(l);
                mixh((63, 1), h)
            }
            F::Eq(l) => {
                let h = self.lin(l);
                mixh((64, 1), h)
            }
            F::Ne(l) => {
                let h = self.lin(l);
                mixh((65, 1), h)
            }
            F::And(a, b) => {
                let x = self.f(a);
                let y = self.f(b);
                mixh(mixh((66, 1), x), y)
            }
            F::Or(a, b) => {
                let x = self.f(a);
                let y = self.f(b);
                mixh(mixh((67, 1), x), y)
            }
        }
    }
    fn ptr(&mut self, p: &Ptr) -> H {
        let mut h = match p.root {
            Root_::Local(d, l) => mix((70, 1), self.slots.get(&(d, l)).cloned().unwrap_or(u64::MAX)),
            Root_::Heap(t) => {
                let x = self.t(t);
                mixh((71, 1), x)
            }
        };
        for x in p.path.iter() {
            h = match x {
                Pj::F(a, b, t) => mix(mix(mix(h, *a as u64), *b as u64), *t as u64),
                Pj::El(l) => {
                    let y = self.lin(l);
                    mixh(mix(h, 72), y)
                }
            };
        }
        h
    }
    fn seq(&mut self, s: &SeqV) -> H {
        let mut h = (80, 1);
        let x = self.t(s.c);
        h = mixh(h, x);
        let x = self.lin(&s.len);
        h = mixh(h, x);
        h = mix(h, s.ety as u64);
        match &s.tpl {
            Tpl::Any => h = mix(h, 1),
            Tpl::Bot => h = mix(h, 2),
            Tpl::V(t) => {
                let x = self.v(&t.v);
                h = mixh(h, x);
                for g in &t.gs {
                    let x = self.t(*g);
                    h = mixh(h, x);
                }
                for f in &t.fs {
                    let x = self.f(f);
                    h = mixh(h, x);
                }
            }
        }
        for q in &s.q {
            let a = self.lin(&q.lo);
            let b = self.lin(&q.hi);
            let c = self.t(q.var);
            let d = self.f(&q.f);
            h = mixh(mixh(mixh(mixh(h, a), b), c), d);
        }
        h
    }
    fn v(&mut self, v: &V) -> H {
        match v {
            V::Undef => (90, 1),
            V::Int(l) => {
                let h = self.lin(l);
                mixh((91, 1), h)
            }
            V::Bool(f) => {
                let h = self.f(f);
                mixh((92, 1), h)
            }
            V::Adt(a) => {
                let mut h = mix(mix((93, 1), a.ty as u64), a.var as u64);
                for x in &a.f {
                    let y = self.v(x);
                    h = mixh(h, y);
                }
                mix(h, a.f.len() as u64)
            }
            V::Opq(t, ty) => {
                let h = self.t(*t);
                mix(mixh((94, 1), h), *ty as u64)
            }
            V::Ref(p) => {
                let h = self.ptr(p);
                mixh((95, 1), h)
            }
            V::Slice(s) => {
                let mut h = (96, 1);
                let x = self.seq(&s.seq);
                h = mixh(h, x);
                let x = self.lin(&s.off);
                h = mixh(h, x);
                let x = self.lin(&s.len);
                h = mixh(h, x);
                if let Some(p) = &s.loc {
                    let x = self.ptr(p);
                    h = mixh(h, x);
                }
                h
            }
            V::Seq(s) => {
                let h = self.seq(s);
                mixh((97, 1), h)
            }
            V::Fnv(t) => mix((98, 1), *t as u64),
        }
    }
    fn key(&mut self, f: FnId, st: &State, args: &[V], slots: &[(u32, u32)]) -> H {
        let mut h = mix((100, 1), f as u64);
        for a in args {
            let x = self.v(a);
            h = mixh(h, x);
        }
        for s in slots {
            let x = match st.fr[s.0 as usize].get(s.1 as usize) {
                Some(v) => self.v(&v.clone()),
                None => (0, 0),
            };
            h = mixh(h, x);
        }
        for (k, v) in st.gh.iter() {
            h = mix(mixh(h, strh(k.as_bytes())), *v as u64);
        }
        for (k, v) in st.gv.iter() {
            let x = self.v(v);
            h = mixh(mixh(h, strh(k.as_bytes())), x);
        }
        let mut s = (0, 0);
        // cells in an order that does not depend on names: those with known atoms first
        for (k, v) in st.heap.iter() {
            let a = self.t(*k);
            let b = self.v(v);
            s = add(s, mixh(mixh((101, 1), a), b));
        }
        h = mixh(h, s);
        let mut s = (0, 0);
        for (x, l) in &st.fx.eq {
            let a = self.t(*x);
            let b = self.lin(l);
            s = add(s, mixh(mixh((102, 1), a), b));
        }
        for l in &st.fx.le {
            let a = self.lin(l);
            s = add(s, mixh((103, 1), a));
        }
        for l in &st.fx.ne {
            let a = self.lin(l);
            s = add(s, mixh((104, 1), a));
        }
        mixh(h, s)
    }
}
