// The abstract interpreter: executes MIR over abstract states, inlining calls, partitioning
// paths, and solving loops by fixpoint iteration.
use crate::join;
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};
use crate::fx::{HashMap, HashSet};
use std::rc::Rc;

#[derive(Clone, Debug)]
pub struct Obl {
    pub ok: bool,
    pub n: usize,
    pub what: String,
    pub at: String,
    pub why: String,
}
/// Something the program does that a property may care about.
pub struct Ev<'a> {
    pub what: &'a str,
    pub v: Vec<V>,
    pub s: String,
}
pub trait Mon {
    fn ev(&mut self, _e: &mut Engine, _st: &mut State, _ev: &Ev) {}
    /// Called on states about to be joined (loop heads, merged returns).
    fn normalise(&mut self, _e: &mut Engine, _st: &mut State) {}
    /// A loop is entered, its head is about to be run or joined with, and it is left.
    fn loop_in(&mut self, _e: &mut Engine, _name: &str) {}
    fn loop_head(&mut self, _e: &mut Engine, _st: &mut State) {}
    fn loop_out(&mut self, _e: &mut Engine, _name: &str) {}
    fn back(&mut self, _e: &mut Engine, _head: &State, _back: &State, _at: &str) {}
    fn ret(&mut self, _e: &mut Engine, _st: &mut State, _f: FnId, _v: &V) {}
    fn enter(&mut self, _e: &mut Engine, _st: &mut State, _f: FnId, _args: &[V]) {}
    /// One way out of a switch was taken.
    fn branch(&mut self, _e: &mut Engine, _st: &mut State) {}
}
pub struct NoMon;
impl Mon for NoMon {}

pub struct Engine {
    pub mem: Mem,
    pub prog: Rc<Prog>,
    pub dry: u32,
    /// a monitor asks for the roots to be run again
    pub again: bool,
    /// types whose construction is an event
    /// Self-checks of the code that are taken to hold, by their message.
    pub trust: Vec<&'static str>,
    pub show: bool,
    pub made: BTreeSet<String>,
    pub stack: Vec<FnId>,
    pub span: String,
    pub ftys: Vec<Rc<Vec<Option<Ty>>>>,
    pub mon: Option<Box<dyn Mon>>,
    pub obl: BTreeMap<String, Obl>,
    pub unknown: BTreeMap<String, usize>,
    pub analysed: BTreeSet<FnId>,
    pub loops_seen: BTreeMap<String, LoopInfo>,
    pub recursion: BTreeSet<FnId>,
    pub steps: u64,
    pub max_steps: u64,
    pub exhausted: bool,
    pub joins: u64,
    pub merge_at: usize,
    pub join_at: usize,
    pub trace: bool,
    pub unroll: usize,
    /// unrolling of the next loop of a library function
    pub unroll_next: usize,
    /// every reader is at its end
    pub eof: bool,
    /// Contents of locks and shared maps are arbitrary values of their type.
    pub arb: bool,
    /// functions whose result is taken as unknown (they have contracts of their own)
    pub cuts: BTreeSet<FnId>,
    /// The public function under analysis and its return type.
    pub root: String,
    pub root_ty: Ty,
    live: HashMap<FnId, Rc<Vec<BTreeSet<u32>>>>,
    pub notes: BTreeSet<String>,
    pub cfg: BTreeSet<&'static str>,
    pub inline_depth: usize,
    pub inv: crate::mio::Inv,
    pub lazy_regex: Option<Option<V>>,
    pub progress: bool,
    pub last_tick: std::time::Instant,
    pub cache: crate::frame::Cache,
    pub blanks: HashMap<usize, Rc<Vec<V>>>,
    /// counts events that make the result of a call depend on its context
    pub impure: u64,
    pub no_frame: bool,
    /// atoms the callers of the function being run can name
    pub protect: Vec<Rc<HashSet<T>>>,
    /// cells the caller can still reach
    pub kept: Vec<Rc<BTreeSet<T>>>,
}
#[derive(Clone, Debug, Default)]
pub struct LoopInfo {
    pub solved: usize,
    pub parts: usize,
}
pub enum Ctl {
    Cont,
    Exit(V),
}
#[derive(Default)]
struct Region {
    ret: Vec<State>,
    exits: Vec<(usize, State)>,
    backs: Vec<State>,
}

impl Engine {
    pub fn new(prog: Rc<Prog>) -> Engine {
        let find = |n: &str| prog.by_s.get(n).cloned().unwrap_or(0);
        let mem = Mem { prog: prog.clone(), heap_ty: HashMap::default(), arrs: HashMap::default(), statics: HashMap::default(), usize_ty: find("usize"), u8_ty: find("u8"), bool_ty: find("bool"), int_tpl: false };
        Engine {
            mem,
            prog,
            dry: 0,
            again: false,
            show: false,
            made: BTreeSet::new(),
            trust: vec![],
            stack: vec![],
            span: String::new(),
            ftys: vec![],
            mon: None,
            obl: BTreeMap::new(),
            unknown: BTreeMap::new(),
            analysed: BTreeSet::new(),
            loops_seen: BTreeMap::new(),
            recursion: BTreeSet::new(),
            steps: 0,
            max_steps: 3_000_000,
            exhausted: false,
            joins: 0,
            merge_at: std::env::var("SA_MERGE").ok().and_then(|x| x.parse().ok()).unwrap_or(24),
            join_at: std::env::var("SA_JOIN").ok().and_then(|x| x.parse().ok()).unwrap_or(4),
            trace: false,
            unroll: 0,
            unroll_next: 0,
            eof: false,
            live: HashMap::default(),
            notes: BTreeSet::new(),
            cfg: BTreeSet::new(),
            inline_depth: 60,
            inv: Default::default(),
            lazy_regex: None,
            cuts: Default::default(),
            progress: std::env::var("SA_PROGRESS").is_ok(),
            last_tick: std::time::Instant::now(),
            cache: Default::default(),
            blanks: HashMap::default(),
            impure: 0,
            arb: false,
            root: String::new(),
            root_ty: u32::MAX,
            protect: vec![],
            kept: vec![],
            no_frame: std::env::var("SA_NOFRAME").is_ok(),
        }
    }
    pub fn here(&self) -> String {
        // innermost function of the analysed crate
        for f in self.stack.iter().rev() {
            if self.prog.fns[*f].local {
                return self.prog.fns[*f].path.clone();
            }
        }
        "?".into()
    }
    pub fn with_mon<R>(&mut self, f: impl FnOnce(&mut Engine, &mut dyn Mon) -> R) -> Option<R> {
        let mut m = self.mon.take()?;
        let r = f(self, &mut *m);
        self.mon = Some(m);
        Some(r)
    }
    pub fn emit(&mut self, st: &mut State, what: &str, v: Vec<V>, s: &str) {
        let e = Ev { what, v, s: s.to_string() };
        self.with_mon(|g, m| m.ev(g, st, &e));
    }
    /// Records an obligation (only on recording passes).
    pub fn oblige(&mut self, key: String, ok: bool, what: &str, why: String) {
        if self.dry > 0 {
            return;
        }
        let at = self.span.clone();
        let e = self.obl.entry(key).or_insert(Obl { ok: true, n: 0, what: what.to_string(), at, why: String::new() });
        e.n += 1;
        if !ok && e.ok {
            e.ok = false;
            e.why = why;
            e.at = self.span.clone();
        }
    }
    pub fn panic_check(&mut self, st: &mut State, kind: &str, cond: &F) -> bool {
        // obligation: cond holds; afterwards it is assumed
        let ok = st.implies(cond);
        let key = format!("panic:{}:{}", self.here(), kind);
        let why = if ok || self.dry > 0 { String::new() } else { format!("[{}] cannot show {} in {}", { let mut d = std::collections::BTreeSet::new(); cond.visit(&mut |l| { for (a, _) in &st.fx.norm(l).m { d.insert(format!("{}:{:?}", show(*a), range(*a))); } }); d.into_iter().collect::<Vec<_>>().join(",") }, showf(&cond.map(&|l| st.fx.norm(l))), self.chain()) };
        if !ok && self.trace && self.dry == 0 {
            eprintln!("FAIL {} {} at {}\n  {}", key, why, self.span, st.fx.show());
        }
        if !ok && std::env::var("SA_P").map_or(false, |x| key.contains(&x)) {
            eprintln!("FAIL {} {} in {}\n  {}", key, self.span, self.chain(), st.fx.show());
        }
        self.oblige(key, ok, kind, why);
        st.assume(cond)
    }
    pub fn chain(&self) -> String {
        self.stack.iter().filter(|f| self.prog.fns[**f].local).map(|f| self.prog.fns[*f].path.rsplit("::").next().unwrap_or("").to_string()).collect::<Vec<_>>().join(">")
    }

    // ---- liveness
    fn liveness(&mut self, f: FnId) -> Rc<Vec<BTreeSet<u32>>> {
        if let Some(l) = self.live.get(&f) {
            return l.clone();
        }
        let b = self.prog.fns[f].body.clone().unwrap();
        let n = b.blocks.len();
        let mut borrowed: BTreeSet<u32> = BTreeSet::new();
        let op_use = |o: &Op, u: &mut Vec<u32>| match o {
            Op::Copy(p) | Op::Move(p) => {
                u.push(p.local);
                for e in &p.proj {
                    if let PE::Index(i) = e {
                        u.push(*i)
                    }
                }
            }
            _ => {}
        };
        let place_use = |p: &Place, u: &mut Vec<u32>| {
            u.push(p.local);
            for e in &p.proj {
                if let PE::Index(i) = e {
                    u.push(*i)
                }
            }
        };
        let mut gen: Vec<BTreeSet<u32>> = vec![];
        let mut kill: Vec<BTreeSet<u32>> = vec![];
        for bl in &b.blocks {
            let mut g = BTreeSet::new();
            let mut k = BTreeSet::new();
            let mut u: Vec<u32>;
            for s in &bl.st {
                u = vec![];
                let mut d = None;
                match s {
                    St::Assign(p, r, _) => {
                        match r {
                            Rv::Use(o) | Rv::Repeat(o, _) | Rv::Cast(_, o, _, _) | Rv::Un(_, o, _) => op_use(o, &mut u),
                            Rv::Bin(_, x, y, _) => {
                                op_use(x, &mut u);
                                op_use(y, &mut u)
                            }
                            Rv::Ref(_, q) | Rv::RawPtr(q) => {
                                place_use(q, &mut u);
                                if !q.proj.contains(&PE::Deref) {
                                    borrowed.insert(q.local);
                                }
                            }
                            Rv::Discr(q, _) => place_use(q, &mut u),
                            Rv::Agg(_, _, _, os) => os.iter().for_each(|o| op_use(o, &mut u)),
                            Rv::Other(_) => {}
                        }
                        if p.proj.is_empty() {
                            d = Some(p.local)
                        } else {
                            place_use(p, &mut u)
                        }
                    }
                    St::SetDiscr(p, _) => place_use(p, &mut u),
                    St::Dead(l) | St::Live(l) => d = Some(*l),
                }
                for x in u {
                    if !k.contains(&x) {
                        g.insert(x);
                    }
                }
                if let Some(x) = d {
                    k.insert(x);
                }
            }
            u = vec![];
            let mut d = None;
            match &bl.t {
                Tm::Switch(o, ..) | Tm::Assert(o, ..) => op_use(o, &mut u),
                Tm::Return => u.push(0),
                Tm::Drop(p, ..) => place_use(p, &mut u),
                Tm::Call { value, args, dest, .. } => {
                    if let Some(v) = value {
                        op_use(v, &mut u)
                    }
                    args.iter().for_each(|o| op_use(o, &mut u));
                    if dest.proj.is_empty() {
                        d = Some(dest.local)
                    } else {
                        place_use(dest, &mut u)
                    }
                }
                _ => {}
            }
            for x in u {
                if !k.contains(&x) {
                    g.insert(x);
                }
            }
            if let Some(x) = d {
                k.insert(x);
            }
            gen.push(g);
            kill.push(k);
        }
        let mut live: Vec<BTreeSet<u32>> = vec![BTreeSet::new(); n];
        let mut ch = true;
        while ch {
            ch = false;
            for i in (0..n).rev() {
                let mut o: BTreeSet<u32> = BTreeSet::new();
                for s in succs(&b.blocks[i]) {
                    o.extend(live[s].iter().cloned());
                }
                let mut x: BTreeSet<u32> = o.difference(&kill[i]).cloned().collect();
                x.extend(gen[i].iter().cloned());
                if x != live[i] {
                    live[i] = x;
                    ch = true;
                }
            }
        }
        for l in live.iter_mut() {
            l.extend(borrowed.iter().cloned());
        }
        let r = Rc::new(live);
        self.live.insert(f, r.clone());
        r
    }

    // ---- places and operands
    pub fn resolve(&mut self, st: &mut State, p: &Place) -> Loc {
        let d = st.depth();
        let mut loc = Loc::P(Ptr::local(d, p.local));
        let mut var = 0u32;
        for e in &p.proj {
            let down = var;
            var = 0;
            loc = match e {
                PE::Down(v) => {
                    var = *v;
                    continue;
                }
                PE::Deref => {
                    let v = self.mem.read_loc(st, &loc);
                    match v {
                        V::Ref(p) => Loc::P(p),
                        V::Slice(s) => Loc::Slice(s),
                        V::Opq(t, ty) => match self.mem.ptr_elem(ty) {
                            Some(e) => {
                                let h = app("deref", vec![t]);
                                self.mem.heap_ty.insert(h, e);
                                Loc::P(Ptr::heap(h))
                            }
                            None => Loc::Val(V::Undef),
                        },
                        // a box modelled by its content
                        V::Adt(a) if self.prog.adt_path(a.ty) == "std::boxed::Box" => Loc::Val(a.f.first().cloned().unwrap_or(V::Undef)),
                        V::Seq(_) => loc,
                        _ => Loc::Val(V::Undef),
                    }
                }
                PE::Field(i, ty) => match loc {
                    Loc::P(p) => Loc::P(p.push(Pj::F(down, *i, *ty))),
                    Loc::Slice(s) => Loc::Slice(s),
                    Loc::Val(v) => {
                        let v = self.mem.get(st, &v, &Pj::F(down, *i, *ty));
                        Loc::Val(v)
                    }
                },
                PE::Index(l) => {
                    let i = match st.local(d, *l).clone() {
                        V::Int(l) => l,
                        _ => Lin::atom(ranged(fresh("idx"), (0, (1i128 << 63) - 1))),
                    };
                    self.index_loc(st, loc, i)
                }
                PE::CIdx(o, _min, end) => {
                    let i = if *end {
                        let len = self.loc_len(st, &loc);
                        len.addc(-*o)
                    } else {
                        Lin::k(*o)
                    };
                    self.index_loc(st, loc, i)
                }
                PE::Sub(from, to, end) => {
                    let len = self.loc_len(st, &loc);
                    let hi = if *end { len.addc(-*to) } else { Lin::k(*to) };
                    match loc {
                        Loc::Slice(s) => Loc::Slice(Rc::new(SliceV { seq: s.seq.clone(), off: s.off.addc(*from), len: hi.addc(-*from), loc: s.loc.clone() })),
                        l => {
                            let v = self.mem.read_loc(st, &l);
                            match self.mem.as_slice(st, &v) {
                                Some(s) => Loc::Slice(Rc::new(SliceV { seq: s.seq.clone(), off: s.off.addc(*from), len: hi.addc(-*from), loc: None })),
                                None => Loc::Val(V::Undef),
                            }
                        }
                    }
                }
                PE::Unk => loc,
            };
        }
        loc
    }
    fn loc_len(&mut self, st: &mut State, l: &Loc) -> Lin {
        match l {
            Loc::Slice(s) => s.len.clone(),
            l => match self.mem.read_loc(st, l) {
                V::Seq(s) => s.len.clone(),
                V::Slice(s) => s.len.clone(),
                _ => Lin::atom(ranged(fresh("len"), (0, (1i128 << 63) - 1))),
            },
        }
    }
    fn index_loc(&mut self, st: &mut State, loc: Loc, i: Lin) -> Loc {
        match loc {
            Loc::P(p) => Loc::P(p.push(Pj::El(i))),
            Loc::Slice(s) => match &s.loc {
                Some(p) => Loc::P(p.push(Pj::El(s.off.add(&i)))),
                None => {
                    let v = self.mem.slice_elem(st, &s, &i);
                    Loc::Val(v)
                }
            },
            Loc::Val(v) => {
                let v = self.mem.get(st, &v, &Pj::El(i));
                Loc::Val(v)
            }
        }
    }
    pub fn op(&mut self, st: &mut State, o: &Op) -> V {
        match o {
            Op::Copy(p) => {
                let l = self.resolve(st, p);
                self.mem.read_loc(st, &l)
            }
            Op::Move(p) => {
                let l = self.resolve(st, p);
                let v = self.mem.read_loc(st, &l);
                if p.proj.is_empty() {
                    let d = st.depth();
                    st.set_local(d, p.local, V::Undef);
                }
                v
            }
            Op::Const(j, ty) => self.constant(st, j, *ty),
            Op::RtCheck => V::Bool(F::T),
        }
    }
    fn array_of(&mut self, st: &mut State, ty: Ty, vs: Vec<V>) -> V {
        let ety = self.mem.seq_elem(ty).unwrap_or(self.mem.u8_ty);
        let ints: Option<Vec<u8>> = vs
            .iter()
            .map(|v| match v {
                V::Int(l) if ety == self.mem.u8_ty => l.is_const().map(|c| c as u8),
                _ => None,
            })
            .collect();
        let len = Lin::k(vs.len() as i128);
        if let Some(b) = ints {
            return V::Seq(Rc::new(SeqV { c: lit(&b), len, ety, tpl: Tpl::Any, q: vec![] }));
        }
        let mut c = fresh("arr");
        if self.prog.adt_path(ety).ends_with("fmt::rt::Argument") {
            // the numbers in what is to be formatted
            let mut parts = vec![c];
            for v in &vs {
                parts.push(match v {
                    V::Adt(a) => match a.f.first() {
                        Some(V::Int(l)) => tl(&st.fx.norm(l)),
                        _ => lit(b"?"),
                    },
                    _ => lit(b"?"),
                });
            }
            c = app("arr", parts);
        }
        let mut s = SeqV { c, len: Lin::k(0), ety, tpl: Tpl::Bot, q: vec![] };
        // scalar elements are also recorded by position
        for (i, v) in vs.iter().enumerate() {
            if let V::Int(l) = v {
                let t = sel(c, &Lin::k(i as i128), self.prog.int_range(ety));
                let f = F::eq(&lt(t), l);
                st.assume(&f);
            }
        }
        if !vs.iter().all(|v| matches!(v, V::Int(_))) {
            if vs.len() == 1 {
                s.tpl = Tpl::V(Rc::new(TplV { v: vs[0].clone(), gs: vec![], fs: vec![] }));
            } else {
                for v in &vs {
                    s.tpl = join::push_tpl(&mut self.mem, st, &s, v);
                    s.len = s.len.addc(1);
                }
            }
        } else {
            s.tpl = Tpl::Any;
        }
        s.len = len;
        let known = |v: &V| match v {
            V::Slice(s) => lit_of(s.seq.c).is_some() && s.off.is_const().is_some() && s.len.is_const().is_some(),
            _ => false,
        };
        if vs.len() <= 16 && vs.iter().all(known) {
            self.mem.arrs.insert(c, Rc::new(vs));
        }
        return V::Seq(Rc::new(s));
    }
    fn constant(&mut self, st: &mut State, j: &crate::json::J, ty: Ty) -> V {
        if j.has("int") {
            let v = j.get("int").i();
            return match self.prog.k(ty) {
                TK::Bool => V::Bool(F::of(v != 0)),
                TK::Int { .. } | TK::Char => V::int(v),
                TK::Adt { is_enum: true, .. } => {
                    let idx = self.prog.variants(ty).and_then(|vs| vs.iter().position(|x| x.discr == v));
                    match idx {
                        Some(i) => V::adt(ty, i as u32, vec![]),
                        None => self.mem.mat(tl(&Lin::k(v)), ty),
                    }
                }
                _ => V::Opq(app("const", vec![tl(&Lin::k(v)), ty]), ty),
            };
        }
        if j.has("bytes") {
            let b: Vec<u8> = j.get("bytes").arr().iter().map(|x| x.i() as u8).collect();
            let c = lit(&b);
            let seq = Rc::new(SeqV { c, len: Lin::k(b.len() as i128), ety: self.mem.u8_ty, tpl: Tpl::Any, q: vec![] });
            if let Some(p) = self.mem.ptr_elem(ty) {
                if self.mem.is_unsized_seq(p) {
                    return V::Slice(Rc::new(SliceV { seq: seq.clone(), off: Lin::k(0), len: seq.len.clone(), loc: None }));
                }
                // reference to an array
                let h = app("static", vec![c]);
                self.mem.heap_ty.insert(h, p);
                self.mem.statics.insert(h, V::Seq(seq));
                return V::Ref(Ptr::heap(h));
            }
            return V::Seq(seq);
        }
        if j.has("ref") {
            let r = j.get("ref");
            let ity = r.get("ty").i() as Ty;
            let v = self.constant(st, r, ity);
            if !v.is_undef() {
                if let (V::Seq(seq), Some(p)) = (&v, self.mem.ptr_elem(ty)) {
                    if self.mem.is_unsized_seq(p) {
                        return V::Slice(Rc::new(SliceV { seq: seq.clone(), off: Lin::k(0), len: seq.len.clone(), loc: None }));
                    }
                }
                let mut key = String::new();
                r.write(&mut key);
                let h = app("static", vec![lit(key.as_bytes())]);
                self.mem.heap_ty.insert(h, ity);
                self.mem.statics.insert(h, v);
                return V::Ref(Ptr::heap(h));
            }
        }
        if j.has("variant") && j.has("fields") {
            let var = j.get("variant").i() as u32;
            if let Some(tys) = self.mem.field_tys(ty, var) {
                let fs = j.get("fields").arr();
                if fs.len() == tys.len() {
                    let f: Vec<V> = fs.iter().zip(tys.iter()).map(|(x, t)| { let t = if x.has("ty") { x.get("ty").i() as Ty } else { *t }; self.constant(st, x, t) }).collect();
                    return V::adt(ty, var, f);
                }
            }
        }
        if j.has("fields") {
            let fs = j.get("fields").arr();
            let k = self.prog.k(ty).clone();
            if matches!(k, TK::Tuple(_)) || matches!(k, TK::Array(..)) {
                let f: Vec<V> = fs.iter().map(|x| self.constant(st, x, x.get("ty").i() as Ty)).collect();
                match k {
                    TK::Tuple(ref t) if t.len() == f.len() => return V::adt(ty, 0, f),
                    TK::Array(..) => return self.array_of(st, ty, f),
                    _ => {}
                }
            }
        }
        match self.prog.k(ty).clone() {
            TK::FnDef(_) => V::Fnv(ty),
            TK::Closure { upvars, .. } if upvars.is_empty() => V::adt(ty, 0, vec![]),
            TK::Tuple(t) if t.is_empty() => V::adt(ty, 0, vec![]),
            TK::Adt { is_enum: false, variants: Some(vs), .. } if vs.len() == 1 && vs[0].fields.is_empty() => V::adt(ty, 0, vec![]),
            _ => {
                // named by what the driver printed, so that equal constants are equal
                let mut key = String::new();
                j.write(&mut key);
                let t = app("constant", vec![lit(key.as_bytes())]);
                self.mem.mat(t, ty)
            }
        }
    }
    pub fn as_int(&mut self, v: &V) -> Lin {
        match v {
            V::Int(l) => l.clone(),
            V::Bool(F::T) => Lin::k(1),
            V::Bool(F::F) => Lin::k(0),
            V::Bool(F::Eq(l)) if l.m.len() == 1 && l.m[0].1 == 1 && l.c == -1 && range(l.m[0].0) == Some((0, 1)) => Lin::atom(l.m[0].0),
            _ => Lin::atom(fresh("int")),
        }
    }
    pub fn as_bool(&mut self, v: &V) -> F {
        match v {
            V::Bool(f) => f.clone(),
            V::Int(l) => l.is_const().map(|c| F::of(c != 0)).unwrap_or(F::Ne(l.clone())),
            _ => F::atom(fresh("bool")),
        }
    }
    fn fit(&mut self, st: &State, l: Lin, ty: Ty) -> Lin {
        // value of an operation whose mathematical result is l, wrapped to ty
        match self.prog.int_range(ty) {
            Some((lo, hi)) => {
                let (a, b) = l.bounds();
                if a.map_or(false, |a| a >= lo) && b.map_or(false, |b| b <= hi) {
                    return l;
                }
                if st.implies(&F::le(&Lin::k(lo), &l)) && st.implies(&F::le(&l, &Lin::k(hi))) {
                    return l;
                }
                let t = mk("wrap", vec![tl(&st.fx.norm(&l)), tl(&Lin::k(lo)), tl(&Lin::k(hi))], Some((lo, hi)));
                lt(t)
            }
            None => l,
        }
    }
    pub fn bits_of(&self, ty: Ty) -> (u32, bool) {
        match self.prog.k(ty) {
            TK::Int { bits, signed } => (*bits, *signed),
            TK::Bool => (1, false),
            TK::Char => (32, false),
            _ => (64, false),
        }
    }
    pub fn binop(&mut self, st: &mut State, op: &str, a: V, b: V, ty: Ty, rty: Option<Ty>) -> V {
        // ty: type of the operands
        let base = op.trim_end_matches("WithOverflow").trim_end_matches("Unchecked");
        match base {
            "Eq" | "Ne" => {
                let f = match (&a, &b) {
                    (V::Bool(x), V::Bool(y)) => F::or(&F::and(x, y), &F::and(&x.not(), &y.not())),
                    (V::Int(x), V::Int(y)) => F::eq(x, y),
                    _ if a == b && !a.is_undef() => F::T,
                    _ => F::atom(fresh("ptreq")),
                };
                return V::Bool(if base == "Eq" { f } else { f.not() });
            }
            "Lt" | "Le" | "Gt" | "Ge" => {
                let (x, y) = (self.as_int(&a), self.as_int(&b));
                return V::Bool(top_bit(match base {
                    "Lt" => F::lt(&x, &y),
                    "Le" => F::le(&x, &y),
                    "Gt" => F::lt(&y, &x),
                    _ => F::le(&y, &x),
                }));
            }
            _ => {}
        }
        if let (V::Bool(x), V::Bool(y)) = (&a, &b) {
            return V::Bool(match base {
                "BitAnd" => F::and(x, y),
                "BitOr" => F::or(x, y),
                "BitXor" => F::or(&F::and(x, &y.not()), &F::and(&x.not(), y)),
                _ => F::atom(fresh("boolop")),
            });
        }
        let (x, y) = (self.as_int(&a), self.as_int(&b));
        let (x, y) = (st.fx.norm(&x), st.fx.norm(&y));
        let exact: Option<Lin> = match base {
            "Add" => Some(x.add(&y)),
            "Sub" => Some(x.sub(&y)),
            "Mul" => match (x.is_const(), y.is_const()) {
                (Some(k), _) => Some(y.scale(k)),
                (_, Some(k)) => Some(x.scale(k)),
                _ => {
                    let (p, q) = if tl(&x) < tl(&y) { (x.clone(), y.clone()) } else { (y.clone(), x.clone()) };
                    let t = app("mul", vec![tl(&p), tl(&q)]);
                    let (bx, by) = (st.fx.bounds(&p), st.fx.bounds(&q));
                    if let (Some(l1), Some(l2)) = (bx.0, by.0) {
                        if l1 >= 0 && l2 >= 0 {
                            let hi = match (bx.1, by.1) {
                                (Some(a), Some(b)) => a.saturating_mul(b),
                                _ => i128::MAX / 4,
                            };
                            if range(t).is_none() {
                                set_range(t, (0, i128::MAX / 4));
                            }
                            st.assume(&F::le(&Lin::atom(t), &Lin::k(hi)));
                        }
                    }
                    Some(Lin::atom(t))
                }
            },
            _ => None,
        };
        if let Some(l) = exact {
            if op.ends_with("WithOverflow") {
                let (lo, hi) = self.prog.int_range(ty).unwrap_or((i128::MIN / 4, i128::MAX / 4));
                let ok = F::and(&F::le(&Lin::k(lo), &l), &F::le(&l, &Lin::k(hi)));
                let rt = rty.unwrap_or(u32::MAX);
                // the value is only used once the check passed
                return V::adt(rt, 0, vec![V::Int(l), V::Bool(ok.not())]);
            }
            let l = self.fit(st, l, ty);
            return V::Int(l);
        }
        let (w, signed) = self.bits_of(ty);
        let r = match base {
            "Div" => {
                if let Some(k) = y.is_const() {
                    if k > 0 && st.implies(&F::le(&Lin::k(0), &x)) {
                        if x.gcd() % k == 0 && x.c % k == 0 && !x.m.is_empty() {
                            return V::Int(Lin { c: x.c / k, m: x.m.iter().map(|(t, c)| (*t, c / k)).collect() });
                        }
                        if let Some(c) = x.is_const() {
                            return V::int(c / k);
                        }
                        if let Some((q, _)) = self.split_pow2(st, &x, k) {
                            return V::Int(q);
                        }
                        let q = self.divmod(st, &x, k);
                        return V::Int(q);
                    }
                }
                app("div", vec![tl(&x), tl(&y)])
            }
            "Rem" => {
                if let Some(k) = y.is_const() {
                    if k > 0 && st.implies(&F::le(&Lin::k(0), &x)) {
                        if x.m.iter().all(|m| m.1 % k == 0) {
                            return V::int(x.c.rem_euclid(k));
                        }
                        if let Some((_, r)) = self.split_pow2(st, &x, k) {
                            return V::Int(r);
                        }
                        let q = self.divmod(st, &x, k);
                        return V::Int(x.add_scaled(&q, -k));
                    }
                }
                app("rem", vec![tl(&x), tl(&y)])
            }
            "BitAnd" => match (x.is_const(), y.is_const()) {
                (_, Some(m)) if m >= 0 => return V::Int(self.and_mask(st, &x, m, w)),
                (Some(m), _) if m >= 0 => return V::Int(self.and_mask(st, &y, m, w)),
                _ => app("and", vec![tl(&x), tl(&y)]),
            },
            "BitOr" => {
                if let (Some(c), Some(d)) = (x.is_const(), y.is_const()) {
                    return V::int(c | d);
                }
                if disjoint_bits(&x, &y) {
                    return V::Int(x.add(&y));
                }
                for (lo, hi) in [(&x, &y), (&y, &x)] {
                    // one lies below the lowest bit of the other
                    let j = hi.m.iter().map(|m| m.1.trailing_zeros()).chain(if hi.c != 0 { Some(hi.c.trailing_zeros()) } else { None }).min().unwrap_or(0);
                    if j > 0 && j < 100 && st.implies(&F::and(&F::le(&Lin::k(0), lo), &F::lt(lo, &Lin::k(1i128 << j)))) && st.implies(&F::le(&Lin::k(0), hi)) {
                        return V::Int(x.add(&y));
                    }
                }
                app("or", vec![tl(&x), tl(&y)])
            }
            "BitXor" => {
                if let (Some(c), Some(d)) = (x.is_const(), y.is_const()) {
                    return V::int(c ^ d);
                }
                app("xor", vec![tl(&x), tl(&y)])
            }
            "Shl" => {
                if let Some(k) = y.is_const() {
                    return V::Int(self.shl(st, &x, k, w));
                }
                app("shl", vec![tl(&x), tl(&y)])
            }
            "Shr" => {
                if let (Some(k), false) = (y.is_const(), signed) {
                    if let Some(c) = x.is_const() {
                        return V::int(c >> k);
                    }
                    if let Some(fs) = fields(&x) {
                        let mut r = Lin::k(x.c >> k);
                        for (t, sh, wd) in fs {
                            if sh >= k {
                                r = r.add(&Lin::atom(t).scale(1i128 << (sh - k)));
                            } else if sh + wd > k {
                                let b = bits(t, k - sh, wd - (k - sh));
                                r = r.add(&b);
                            }
                        }
                        return V::Int(r);
                    }
                }
                app("shr", vec![tl(&x), tl(&y)])
            }
            "Cmp" => {
                if let Some(rt) = rty {
                    return V::Opq(app("cmp", vec![tl(&x), tl(&y)]), rt);
                }
                fresh("cmp")
            }
            _ => fresh("binop"),
        };
        if let Some(rg) = self.prog.int_range(ty) {
            set_range(r, rg);
        }
        V::Int(Lin::atom(r))
    }
    pub fn divmod(&mut self, st: &mut State, x: &Lin, k: i128) -> Lin {
        let q = mk("div", vec![tl(x), tl(&Lin::k(k))], Some((0, i128::MAX / 8)));
        let r = x.add_scaled(&lt(q), -k);
        st.assume(&F::le(&Lin::k(0), &r));
        st.assume(&F::le(&r, &Lin::k(k - 1)));
        lt(q)
    }
    /// Quotient and remainder of a byte by a power of two, as bit fields.
    fn split_pow2(&mut self, st: &mut State, x: &Lin, k: i128) -> Option<(Lin, Lin)> {
        if k <= 1 || k & (k - 1) != 0 || x.c != 0 || x.m.len() != 1 || x.m[0].1 != 1 {
            return None;
        }
        let t = x.m[0].0;
        let (lo, hi) = range(t)?;
        if lo != 0 || (hi & (hi + 1)) != 0 || hi > 0xffff || hi < k {
            return None;
        }
        let w = 128 - (hi as u128).leading_zeros() as i128;
        let j = k.trailing_zeros() as i128;
        let (q, r) = (bits(t, j, w - j), bits(t, 0, j));
        st.assume(&F::eq(x, &r.add(&q.scale(k))));
        Some((q, r))
    }
    fn and_mask(&mut self, st: &mut State, x: &Lin, m: i128, w: u32) -> Lin {
        if let Some(c) = x.is_const() {
            return Lin::k(c & m);
        }
        let full = if w >= 120 { i128::MAX } else { (1i128 << w) - 1 };
        if m == full {
            return x.clone();
        }
        let fs = match fields(x) {
            Some(f) => f,
            None => {
                // one opaque word
                let t = tl(x);
                if st.implies(&F::le(&Lin::k(0), x)) && range(t).is_some() {
                    vec![(t, 0, w as i128)]
                } else {
                    let t = mk("and", vec![tl(x), tl(&Lin::k(m))], Some((0, m)));
                    return lt(t);
                }
            }
        };
        let mut r = Lin::k(x.c & m);
        for (t, sh, wd) in fs {
            // runs of ones of the mask inside this field
            let mut i = 0;
            while i < wd {
                if (m >> (sh + i)) & 1 == 0 {
                    i += 1;
                    continue;
                }
                let mut j = i;
                while j < wd && (m >> (sh + j)) & 1 == 1 {
                    j += 1;
                }
                let b = if i == 0 && j == wd { Lin::atom(t) } else { bits(t, i, j - i) };
                r = r.add(&b.scale(1i128 << (sh + i)));
                i = j;
            }
        }
        r
    }
    pub fn shl(&mut self, st: &mut State, x: &Lin, k: i128, w: u32) -> Lin {
        if k >= w as i128 {
            return Lin::k(0);
        }
        if let Some(c) = x.is_const() {
            return Lin::k((c << k) & ((1i128 << w) - 1));
        }
        let s = x.scale(1i128 << k);
        if let (Some(lo), Some(hi)) = s.bounds() {
            if lo >= 0 && hi < (1i128 << w) {
                return s;
            }
        }
        if st.implies(&F::le(&s, &Lin::k((1i128 << w) - 1))) && st.implies(&F::le(&Lin::k(0), &s)) {
            return s;
        }
        if let Some(fs) = fields(x) {
            let mut r = Lin::k((x.c << k) & ((1i128 << w) - 1));
            for (t, sh, wd) in fs {
                let room = w as i128 - k - sh;
                if room <= 0 {
                    continue;
                }
                let b = if room >= wd { Lin::atom(t) } else { bits(t, 0, room) };
                r = r.add(&b.scale(1i128 << (sh + k)));
            }
            return r;
        }
        lt(mk("shl", vec![tl(x), tl(&Lin::k(k))], Some((0, (1i128 << w) - 1))))
    }
    pub fn cast_int(&mut self, st: &mut State, v: V, to: Ty) -> V {
        let l = match &v {
            V::Bool(_) => {
                let l = self.as_int(&v);
                return V::Int(l);
            }
            V::Int(l) => l.clone(),
            V::Adt(a) => match self.prog.variants(a.ty).and_then(|x| x.get(a.var as usize)) {
                Some(x) => Lin::k(x.discr),
                None => Lin::atom(fresh("cast")),
            },
            V::Opq(t, _) => Lin::atom(app("discr", vec![*t])),
            _ => Lin::atom(fresh("cast")),
        };
        let l = st.fx.norm(&l);
        if let (Some((lo, hi)), Some(c)) = (self.prog.int_range(to), l.is_const()) {
            if c >= lo && c <= hi {
                return V::Int(l);
            }
            let (w, s) = self.bits_of(to);
            let m = c.rem_euclid(1i128 << w);
            return V::int(if s && m >= (1i128 << (w - 1)) { m - (1i128 << w) } else { m });
        }
        let (w, signed) = self.bits_of(to);
        if let Some((lo, hi)) = self.prog.int_range(to) {
            if st.implies(&F::le(&Lin::k(lo), &l)) && st.implies(&F::le(&l, &Lin::k(hi))) {
                return V::Int(l);
            }
        }
        if !signed && st.implies(&F::le(&Lin::k(0), &l)) {
            if let Some(_) = fields(&l) {
                let r = self.and_mask(st, &l, (1i128 << w) - 1, 127);
                return V::Int(r);
            }
        }
        let r = self.fit(st, l, to);
        V::Int(r)
    }
    pub fn discr(&mut self, st: &mut State, v: &V) -> Lin {
        match v {
            V::Adt(a) => match self.prog.variants(a.ty).and_then(|x| x.get(a.var as usize)) {
                Some(x) => Lin::k(x.discr),
                None => Lin::atom(fresh("discr")),
            },
            V::Opq(t, ty) => {
                let d = app("discr", vec![*t]);
                if range(d).is_none() {
                    if let Some(vs) = self.prog.variants(*ty) {
                        if !vs.is_empty() {
                            let lo = vs.iter().map(|x| x.discr).min().unwrap();
                            let hi = vs.iter().map(|x| x.discr).max().unwrap();
                            set_range(d, (lo, hi));
                        }
                    }
                }
                let _ = st;
                Lin::atom(d)
            }
            _ => Lin::atom(fresh("discr")),
        }
    }
    fn rvalue(&mut self, st: &mut State, r: &Rv, dty: Option<Ty>) -> V {
        match r {
            Rv::Use(o) => self.op(st, o),
            Rv::Repeat(o, n) => {
                let v = self.op(st, o);
                let ety = dty.and_then(|t| self.mem.seq_elem(t)).unwrap_or(self.mem.u8_ty);
                let len = n.map(Lin::k).unwrap_or(Lin::atom(ranged(fresh("rep"), (0, 1 << 62))));
                if let (V::Int(l), Some(n)) = (&v, n) {
                    if let Some(c) = l.is_const() {
                        if *n <= 4096 && ety == self.mem.u8_ty {
                            return V::Seq(Rc::new(SeqV { c: lit(&vec![c as u8; *n as usize]), len, ety, tpl: Tpl::Any, q: vec![] }));
                        }
                    }
                }
                let c = fresh("repeat");
                let tpl = Tpl::V(Rc::new(TplV { v, gs: vec![], fs: vec![] }));
                V::Seq(Rc::new(SeqV { c, len, ety, tpl, q: vec![] }))
            }
            Rv::Ref(_, p) | Rv::RawPtr(p) => {
                let l = self.resolve(st, p);
                match l {
                    Loc::P(p) => V::Ref(p),
                    Loc::Slice(s) => V::Slice(s),
                    Loc::Val(v) => {
                        let ty = dty.and_then(|t| self.mem.ptr_elem(t)).unwrap_or(self.mem.u8_ty);
                        self.mem.temp_ref(st, v, ty)
                    }
                }
            }
            Rv::Cast(k, o, to, from) => {
                let v = self.op(st, o);
                self.cast(st, k, v, *from, *to)
            }
            Rv::Bin(op, a, b, ty) => {
                let x = self.op(st, a);
                let y = self.op(st, b);
                self.binop(st, op, x, y, *ty, dty)
            }
            Rv::Un(op, a, ty) => {
                let x = self.op(st, a);
                match (op.as_str(), &x) {
                    ("Not", V::Bool(f)) => V::Bool(f.not()),
                    ("Not", V::Int(l)) => {
                        let (w, s) = self.bits_of(*ty);
                        if s {
                            V::Int(l.neg().addc(-1))
                        } else {
                            V::Int(Lin::k((1i128 << w) - 1).sub(l))
                        }
                    }
                    ("Neg", V::Int(l)) => V::Int(l.neg()),
                    ("PtrMetadata", _) => match self.mem.as_slice(st, &x) {
                        Some(s) => V::Int(s.len.clone()),
                        None => V::Undef,
                    },
                    _ => match dty {
                        Some(t) => self.mem.fresh("unop", t),
                        None => V::Undef,
                    },
                }
            }
            Rv::Discr(p, _) => {
                let l = self.resolve(st, p);
                let v = self.mem.read_loc(st, &l);
                V::Int(self.discr(st, &v))
            }
            Rv::Agg(k, ty, var, ops) => {
                let vs: Vec<V> = ops.iter().map(|o| self.op(st, o)).collect();
                if k == "array" {
                    return self.array_of(st, *ty, vs);
                }
                let v = V::adt(*ty, *var, vs);
                if !self.made.is_empty() && self.made.contains(self.prog.adt_path(*ty)) {
                    let n = self.prog.adt_path(*ty).to_string();
                    self.emit(st, "made", vec![v.clone()], &n);
                }
                v
            }
            Rv::Other(s) => {
                self.notes.insert(format!("unhandled rvalue {}", s));
                match dty {
                    Some(t) => self.mem.fresh("rv", t),
                    None => V::Undef,
                }
            }
        }
    }
    fn cast(&mut self, st: &mut State, k: &str, v: V, from: Ty, to: Ty) -> V {
        if k.contains("IntToInt") {
            return self.cast_int(st, v, to);
        }
        if k.contains("Unsize") {
            if let Some(p) = self.mem.ptr_elem(to) {
                if self.mem.is_unsized_seq(p) {
                    if let Some(s) = self.mem.as_slice(st, &v) {
                        return V::Slice(s);
                    }
                }
            }
            return v;
        }
        let _ = from;
        if matches!(self.prog.k(to), TK::Int { .. }) {
            if let V::Int(_) = v {
                return self.cast_int(st, v, to);
            }
        }
        if k.contains("Transmute") {
            return match (&v, self.prog.k(to)) {
                (V::Ref(_), TK::Ref(..)) | (V::Slice(_), TK::Ref(..)) => v,
                (V::Ref(_), TK::Ptr(..)) | (V::Slice(_), TK::Ptr(..)) => v,
                _ => self.mem.fresh("transmute", to),
            };
        }
        v
    }

    // ---- control
    pub fn shape(&mut self, st: &State) -> String {
        let mut s = String::new();
        for d in 0..st.fr.len() {
            for v in st.fr[d].iter() {
                self.shape_v(st, v, &mut s, 0);
            }
            s.push('|');
        }
        for (k, v) in st.gh.iter() {
            s += &format!("{}={};", k, v);
        }
        for k in st.gv.keys() {
            s += k;
            s.push(';');
        }
        s
    }
    fn shape_v(&mut self, st: &State, v: &V, s: &mut String, depth: u32) {
        match v {
            V::Undef => s.push('.'),
            V::Int(_) => s.push('i'),
            V::Bool(F::T) => s.push('1'),
            V::Bool(F::F) => s.push('0'),
            V::Bool(f) => {
                if st.implies(f) {
                    s.push('1')
                } else if st.implies(&f.not()) {
                    s.push('0')
                } else {
                    s.push('b')
                }
            }
            V::Adt(a) => {
                if self.prog.is_enum(a.ty) {
                    s.push_str(&format!("v{}", a.var));
                }
                if depth < 4 {
                    for x in &a.f {
                        self.shape_v(st, x, s, depth + 1);
                    }
                }
            }
            V::Opq(t, ty) => {
                if self.prog.is_enum(*ty) {
                    let d = st.fx.norm(&Lin::atom(app("discr", vec![*t])));
                    if let Some(c) = d.is_const() {
                        let i = self.prog.variants(*ty).and_then(|vs| vs.iter().position(|x| x.discr == c));
                        s.push_str(&format!("v{}", i.map(|x| x as i64).unwrap_or(-1)));
                        return;
                    }
                }
                s.push('o')
            }
            V::Ref(p) => {
                // what is behind a reference matters to callers too
                s.push('r');
                if let Root_::Heap(t) = p.root {
                    if depth < 4 && p.path.is_empty() {
                        if let Some(x) = st.heap.get(&t) {
                            self.shape_v(st, &x.clone(), s, depth + 1);
                        }
                    }
                }
            }
            V::Slice(_) => s.push('s'),
            V::Seq(q) => s.push(if matches!(q.tpl, Tpl::V(_)) { 'Q' } else { 'q' }),
            V::Fnv(_) => s.push('f'),
        }
    }
    fn gc(&mut self, st: &mut State) {
        self.gc_heap(st);
        self.gc_facts(st);
    }
    /// Forgets facts about values nothing can name any more.
    fn gc_facts(&mut self, st: &mut State) {
        let mut dead = false;
        let mut lv: BTreeSet<T> = BTreeSet::new();
        let mut rt = vec![];
        for f in &st.fr {
            for v in f.iter() {
                crate::mio::v_leaves(v, &mut lv, &mut rt);
            }
        }
        for v in st.gv.values() {
            crate::mio::v_leaves(v, &mut lv, &mut rt);
        }
        for (k, v) in st.heap.iter() {
            crate::mio::leaves(*k, &mut lv);
            crate::mio::v_leaves(v, &mut lv, &mut rt);
        }
        let pr = self.protect.last().cloned();
        let mut live: HashSet<T> = lv.into_iter().collect();
        if let Some(p) = pr {
            live.extend(p.iter().cloned());
        }
        // what an equality of a live atom mentions is live too
        for f in st.fx.all() {
            f.visit(&mut |l| {
                for (a, _) in &l.m {
                    dead |= deep(*a).iter().any(|x| matches!(kind(*x), K::Fresh(..)) && !live.contains(x));
                }
            });
        }
        if dead {
            Rc::make_mut(&mut st.fx).project(&live);
        }
    }
    fn gc_heap(&mut self, st: &mut State) {
        // drop heap cells that are no longer reachable
        let mut work: Vec<T> = vec![];
        let mut seen: HashSet<T> = HashSet::default();
        fn refs(v: &V, out: &mut Vec<T>) {
            match v {
                V::Ref(p) => {
                    if let Root_::Heap(t) = p.root {
                        out.push(t)
                    }
                }
                V::Slice(s) => {
                    if let Some(p) = &s.loc {
                        if let Root_::Heap(t) = p.root {
                            out.push(t)
                        }
                    }
                    if let Tpl::V(t) = &s.seq.tpl {
                        refs(&t.v, out)
                    }
                }
                V::Seq(s) => {
                    if let Tpl::V(t) = &s.tpl {
                        refs(&t.v, out)
                    }
                }
                V::Adt(a) => a.f.iter().for_each(|x| refs(x, out)),
                _ => {}
            }
        }
        for f in &st.fr {
            for v in f.iter() {
                refs(v, &mut work);
            }
        }
        for v in st.gv.values() {
            refs(v, &mut work);
        }
        if let Some(k) = self.kept.last() {
            work.extend(k.iter().cloned());
        }
        while let Some(t) = work.pop() {
            if !seen.insert(t) {
                continue;
            }
            if let Some(v) = st.heap.get(&t) {
                refs(v, &mut work);
            }
        }
        // a cell named by a term can be found again from the atoms of the term
        let unseen: Vec<T> = st.heap.keys().filter(|k| !seen.contains(k)).cloned().collect();
        if unseen.is_empty() {
            return;
        }
        let mut lv: BTreeSet<T> = BTreeSet::new();
        if unseen.iter().any(|k| !matches!(kind(*k), K::Fresh(..))) {
            let mut rt = vec![];
            for f in &st.fr {
                for v in f.iter() {
                    crate::mio::v_leaves(v, &mut lv, &mut rt);
                }
            }
            for v in st.gv.values() {
                crate::mio::v_leaves(v, &mut lv, &mut rt);
            }
            for t in &seen {
                crate::mio::leaves(*t, &mut lv);
                if let Some(v) = st.heap.get(t) {
                    crate::mio::v_leaves(v, &mut lv, &mut rt);
                }
            }
        }
        let dead: HashSet<T> = unseen
            .into_iter()
            .filter(|k| {
                if let K::Fresh(..) = kind(*k) {
                    return true;
                }
                let mut kl = BTreeSet::new();
                crate::mio::leaves(*k, &mut kl);
                !kl.is_empty() && !kl.iter().all(|x| lv.contains(x))
            })
            .collect();
        if !dead.is_empty() {
            Rc::make_mut(&mut st.heap).retain(|k, _| !dead.contains(k));
        }
    }
    fn clean(&mut self, st: &mut State, f: FnId, b: usize) {
        let live = self.liveness(f);
        let d = st.depth();
        let dead: Vec<u32> = (0..st.fr[d as usize].len() as u32).filter(|l| !live[b].contains(l) && !st.local(d, *l).is_undef()).collect();
        for l in dead {
            st.set_local(d, l, V::Undef);
        }
    }
    pub fn merge(&mut self, states: Vec<State>) -> Vec<State> {
        let mut parts: Vec<(String, State)> = vec![];
        for mut s in states {
            self.with_mon(|g, m| m.normalise(g, &mut s));
            self.gc(&mut s);
            let k = self.shape(&s);
            match parts.iter_mut().find(|p| p.0 == k) {
                None => parts.push((k, s)),
                Some(p) => {
                    let e = HashSet::default();
                    let (j, _, _) = self.join(&p.1.clone(), &s, &e);
                    p.1 = j;
                }
            }
        }
        parts.into_iter().map(|p| p.1).collect()
    }
    pub fn join(&mut self, p: &State, b: &State, pset: &HashSet<T>) -> (State, bool, HashSet<T>) {
        self.joins += 1;
        let ft = self.ftys.clone();
        let mut r = join::join(&mut self.mem, p, b, pset, &|d, l| ft.get(d as usize).and_then(|f| f.get(l as usize).cloned().flatten()));
        self.gc(&mut r.0);
        r
    }
    /// Fixpoint over an arbitrary loop body. `body` maps a head state to (back states, exits).
    pub fn fixpoint<X>(&mut self, name: &str, entry: State, body: &mut dyn FnMut(&mut Engine, State) -> (Vec<State>, Vec<X>)) -> Vec<X> {
        struct Part {
            key: String,
            st: State,
            pset: HashSet<T>,
            dirty: bool,
            rounds: usize,
        }
        let mut parts: Vec<Part> = vec![];
        let mut entry = entry;
        self.with_mon(|g, m| m.loop_in(g, name));
        self.with_mon(|g, m| m.loop_head(g, &mut entry));
        self.with_mon(|g, m| m.normalise(g, &mut entry));
        self.gc(&mut entry);
        let key = self.shape(&entry);
        parts.push(Part { key, st: entry, pset: HashSet::default(), dirty: true, rounds: 0 });
        self.dry += 1;
        let mut total = 0;
        loop {
            let i = match parts.iter().position(|p| p.dirty) {
                None => break,
                Some(i) => i,
            };
            parts[i].dirty = false;
            total += 1;
            if total > 60 || self.exhausted {
                self.notes.insert(format!("loop {} did not stabilise", name));
                self.exhausted = true;
                break;
            }
            let s = parts[i].st.clone();
            let (backs, _) = body(self, s);
            for mut b in backs {
                if b.fx.bot {
                    continue;
                }
                self.with_mon(|g, m| m.loop_head(g, &mut b));
                self.with_mon(|g, m| m.normalise(g, &mut b));
                self.gc(&mut b);
                let mut k = self.shape(&b);
                if parts.len() > 16 && !parts.iter().any(|p| p.key == k) {
                    // too many partitions: collapse into the first
                    k = parts[0].key.clone();
                    self.notes.insert(format!("loop {} partition cap", name));
                }
                match parts.iter().position(|p| p.key == k) {
                    None => parts.push(Part { key: k, st: b, pset: HashSet::default(), dirty: true, rounds: 0 }),
                    Some(j) => {
                        let (p, ps) = (parts[j].st.clone(), parts[j].pset.clone());
                        let (mut n, changed, nps) = self.join(&p, &b, &ps);
                        if changed {
                            parts[j].rounds += 1;
                            if parts[j].rounds > 6 {
                                // keep the relations that are stable; in the end give up on relations
                                let all = parts[j].rounds > 14;
                                if all {
                                    self.notes.insert(format!("loop {} widened", name));
                                }
                                let was: Vec<F> = if all { vec![] } else { p.fx.all() };
                                let fx = Rc::make_mut(&mut n.fx);
                                let keep: Vec<F> = fx
                                    .all()
                                    .into_iter()
                                    .filter(|f| {
                                        let mut ok = true;
                                        f.visit(&mut |l| ok &= !l.deep().iter().any(|x| nps.contains(x)));
                                        ok || was.contains(f)
                                    })
                                    .collect();
                                *fx = Default::default();
                                for f in keep {
                                    fx.assume(&f);
                                }
                            }
                            parts[j].st = n;
                            parts[j].pset = nps;
                            parts[j].dirty = true;
                        }
                    }
                }
            }
        }
        self.dry -= 1;
        let mut exits = vec![];
        let li = self.loops_seen.entry(name.to_string()).or_default();
        li.solved += 1;
        li.parts = li.parts.max(parts.len());
        for p in parts {
            let head = p.st.clone();
            let (backs, ex) = body(self, p.st);
            if self.dry == 0 {
                for b in backs {
                    if !b.fx.bot {
                        self.with_mon(|g, m| m.back(g, &head, &b, name));
                    }
                }
            }
            exits.extend(ex);
        }
        self.with_mon(|g, m| m.loop_out(g, name));
        exits
    }
    /// A loop written in the analyser (for library functions): the variables live in a pseudo
    /// frame; the body says whether to go on or to leave with a value.
    pub fn native_loop(&mut self, name: &str, mut st: State, vars: Vec<(V, Option<Ty>)>, body: &mut dyn FnMut(&mut Engine, State) -> Vec<(State, Ctl)>) -> Vec<(State, V, Vec<V>)> {
        self.ftys.push(Rc::new(vars.iter().map(|x| x.1).collect()));
        st.fr.push(Rc::new(vars.into_iter().map(|x| x.0).collect()));
        let nm = format!("{}@{}", name, self.here());
        let mut done = vec![];
        let mut left = vec![];
        let times = self.unroll.max(std::mem::take(&mut self.unroll_next));
        if times > 0 {
            left.push(st);
            for _ in 0..times {
                let mut next = vec![];
                for s in left {
                    for (s, c) in body(self, s) {
                        if s.fx.bot {
                            continue;
                        }
                        match c {
                            Ctl::Cont => next.push(s),
                            Ctl::Exit(v) => done.push((s, v)),
                        }
                    }
                }
                left = if next.len() > 8 { self.merge(next) } else { next };
                if left.is_empty() {
                    break;
                }
            }
        } else {
            left.push(st);
        }
        for st in left {
        let r = self.fixpoint(&nm, st, &mut |e, s| {
            let mut backs = vec![];
            let mut ex = vec![];
            for (s, c) in body(e, s) {
                if s.fx.bot {
                    continue;
                }
                match c {
                    Ctl::Cont => backs.push(s),
                    Ctl::Exit(v) => ex.push((s, v)),
                }
            }
            (backs, ex)
        });
        done.extend(r);
        }
        self.ftys.pop();
        done.into_iter()
            .map(|(mut s, v)| {
                let f = s.fr.pop().unwrap();
                (s, v, (*f).clone())
            })
            .collect()
    }
    fn region(&mut self, f: FnId, body: &Rc<Body>, entry: usize, st: State, lp: Option<(usize, &BTreeSet<usize>)>) -> Region {
        let mut out = Region::default();
        // pending states by block, earliest block first, so that paths meet again
        let mut work: BTreeMap<(usize, usize), Vec<State>> = BTreeMap::new();
        let mut start = Some(st);
        loop {
            let (b, states, first) = match start.take() {
                Some(s) => (entry, vec![s], true),
                None => match work.pop_first() {
                    None => break,
                    Some((k, v)) => (k.1, v, false),
                },
            };
            let states: Vec<State> = states.into_iter().filter(|s| !s.fx.bot).collect();
            if let Some((h, set)) = lp {
                if b == h && !first {
                    for mut st in states {
                        self.clean(&mut st, f, b);
                        out.backs.push(st);
                    }
                    continue;
                }
                if !set.contains(&b) {
                    out.exits.extend(states.into_iter().map(|s| (b, s)));
                    continue;
                }
            }
            let states = if states.len() > self.join_at {
                let mut v = vec![];
                for mut st in states {
                    self.clean(&mut st, f, b);
                    v.push(st);
                }
                self.merge(v)
            } else {
                states
            };
            for st in states {
                if self.exhausted {
                    return out;
                }
                self.steps += 1;
                if self.progress && self.last_tick.elapsed().as_secs() >= 2 {
                    self.last_tick = std::time::Instant::now();
                    eprintln!("[{} steps, {} joins, dry {}] {} {} facts {}", self.steps, self.joins, self.dry, self.chain(), self.span, st.fx.eq.len() + st.fx.le.len() + st.fx.ne.len());
                }
                if self.steps > self.max_steps {
                    self.exhausted = true;
                    self.notes.insert("step limit".into());
                    return out;
                }
                let is_head = body.loops.contains_key(&b) && !(lp.map(|x| x.0) == Some(b) && first);
                let next = if is_head {
                    let r = self.solve_loop(f, body, b, st);
                    out.ret.extend(r.ret);
                    r.exits
                } else {
                    self.block(f, body, b, st, &mut out)
                };
                for (x, s) in next {
                    work.entry((body.rpo[x], x)).or_default().push(s);
                }
            }
        }
        out
    }
    fn solve_loop(&mut self, f: FnId, body: &Rc<Body>, h: usize, mut st: State) -> Region {
        let set = body.loops[&h].clone();
        self.clean(&mut st, f, h);
        let mut res = Region::default();
        // optional unrolling (decoders analysed exactly)
        let times = self.unroll.max(self.short(body, &set, &st));
        if times > 0 {
            let mut cur = vec![st];
            let mut rest = vec![];
            for i in 0..times {
                let mut next = vec![];
                for s in cur {
                    let r = self.region(f, body, h, s, Some((h, &set)));
                    res.ret.extend(r.ret);
                    res.exits.extend(r.exits);
                    next.extend(r.backs);
                }
                if i + 1 == times {
                    rest = next;
                    break;
                }
                cur = if next.len() > 8 { self.merge(next) } else { next };
                if cur.is_empty() {
                    break;
                }
            }
            if rest.is_empty() {
                return res;
            }
            // did not finish: fall through to the invariant for what is left
            for s in rest {
                let r = self.solve_loop_inv(f, body, h, s, &set);
                res.ret.extend(r.ret);
                res.exits.extend(r.exits);
            }
            return res;
        }
        self.solve_loop_inv(f, body, h, st, &set)
    }
    /// How often a loop over a short sequence of known length turns.
    fn short(&mut self, body: &Body, set: &BTreeSet<usize>, st: &State) -> usize {
        let mut best = 0;
        let nexts: Vec<u32> = set
            .iter()
            .filter_map(|b| match &body.blocks[*b].t {
                Tm::Call { callee, args, .. } if callee.decl == "std::iter::Iterator::next" => match args.first() {
                    Some(Op::Move(p)) | Some(Op::Copy(p)) if p.proj.is_empty() => Some(p.local),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        if nexts.len() != 1 {
            return 0;
        }
        let d = st.depth();
        let mut want = nexts[0];
        for _ in 0..3 {
            let mut next = None;
            for b in set {
                for x in &body.blocks[*b].st {
                    if let St::Assign(p, Rv::Ref(_, q), _) = x {
                        if p.proj.is_empty() && p.local == want {
                            if q.proj.is_empty() {
                                let v = st.local(d, q.local).clone();
                                best = best.max(self.few(st, &v).map_or(0, |n| n + 2));
                            } else if matches!(q.proj[..], [PE::Deref]) {
                                next = Some(q.local);
                            }
                        }
                    }
                }
            }
            match next {
                Some(n) => want = n,
                None => break,
            }
        }
        best
    }
    /// The number of items left, when it is small and known.
    pub fn few(&mut self, st: &State, it: &V) -> Option<usize> {
        let mut v = it.clone();
        for _ in 0..5 {
            let a = match self.mem.deref_all(&mut st.clone(), &v) {
                V::Adt(a) => a,
                _ => return None,
            };
            let p = self.prog.adt_path(a.ty).to_string();
            match a.f.first() {
                Some(V::Slice(s)) if p.ends_with("::Iter") || p.ends_with("::IntoIter") => {
                    return st.fx.norm(&s.len).is_const().filter(|n| (1..=8).contains(n)).map(|n| n as usize);
                }
                Some(x) if ["Copied", "Cloned", "Map", "Enumerate", "Filter", "FilterMap", "Rev", "Peekable"].iter().any(|n| p.ends_with(&format!("::{}", n))) => v = x.clone(),
                _ => return None,
            }
        }
        None
    }
    fn solve_loop_inv(&mut self, f: FnId, body: &Rc<Body>, h: usize, st: State, set: &BTreeSet<usize>) -> Region {
        let name = format!("{}:{}", self.prog.fns[f].path, body.blocks[h].sp);
        let b2 = body.clone();
        enum X {
            Ret(State),
            Exit(usize, State),
        }
        let xs = self.fixpoint(&name, st, &mut |e, s| {
            let r = e.region(f, &b2, h, s, Some((h, set)));
            let mut ex: Vec<X> = r.ret.into_iter().map(X::Ret).collect();
            ex.extend(r.exits.into_iter().map(|(b, s)| X::Exit(b, s)));
            (r.backs, ex)
        });
        let mut out = Region::default();
        for x in xs {
            match x {
                X::Ret(s) => out.ret.push(s),
                X::Exit(b, s) => out.exits.push((b, s)),
            }
        }
        out
    }
    fn block(&mut self, f: FnId, body: &Rc<Body>, b: usize, mut st: State, out: &mut Region) -> Vec<(usize, State)> {
        let bl = &body.blocks[b];
        let d = st.depth();
        for s in &bl.st {
            match s {
                St::Assign(p, r, sp) => {
                    if !sp.is_empty() {
                        self.span = sp.clone();
                    }
                    let dty = if p.proj.is_empty() { Some(body.locals[p.local as usize]) } else { self.place_ty(body, p) };
                    let v = self.rvalue(&mut st, r, dty);
                    if st.fx.bot {
                        return vec![];
                    }
                    if p.proj.is_empty() {
                        st.set_local(d, p.local, v);
                    } else {
                        let l = self.resolve(&mut st, p);
                        if let Loc::P(ptr) = l {
                            self.mem.write(&mut st, &ptr, v);
                        }
                    }
                }
                St::SetDiscr(p, var) => {
                    let l = self.resolve(&mut st, p);
                    let v = self.mem.read_loc(&mut st, &l);
                    if let (Loc::P(ptr), Some(ty)) = (l, self.place_ty(body, p)) {
                        let fs = match v {
                            V::Adt(a) => a.f.clone(),
                            _ => vec![],
                        };
                        self.mem.write(&mut st, &ptr, V::adt(ty, *var, fs));
                    }
                }
                St::Dead(l) => st.set_local(d, *l, V::Undef),
                St::Live(_) => {}
            }
        }
        if !bl.sp.is_empty() {
            self.span = bl.sp.clone();
        }
        match &bl.t {
            Tm::Goto(t) => vec![(*t, st)],
            Tm::Return => {
                out.ret.push(st);
                vec![]
            }
            Tm::Unreachable | Tm::Unwind => vec![],
            Tm::Switch(o, ty, vals, other) => {
                let v = self.op(&mut st, o);
                let mut r = self.switch(st, v, *ty, vals, *other, body);
                for (_, s) in r.iter_mut() {
                    self.with_mon(|g, m| m.branch(g, s));
                }
                r
            }
            Tm::Drop(p, t, ty) => {
                let l = self.resolve(&mut st, p);
                let v = self.mem.read_loc(&mut st, &l);
                self.drop_value(&mut st, &v, *ty);
                if p.proj.is_empty() {
                    st.set_local(d, p.local, V::Undef);
                }
                vec![(*t, st)]
            }
            Tm::Assert(o, exp, msg, t) => {
                let v = self.op(&mut st, o);
                let c = self.as_bool(&v);
                let c = if *exp { c } else { c.not() };
                if msg == "other" {
                    // checks of raw pointers inserted by the compiler for debug builds
                    return vec![(*t, st)];
                }
                self.panic_check(&mut st, msg, &c);
                vec![(*t, st)]
            }
            Tm::Call { callee, value, args, tys, dest, rty, to, span } => {
                let fv = value.as_ref().map(|o| self.op(&mut st, o));
                let av: Vec<V> = args.iter().map(|o| self.op(&mut st, o)).collect();
                if !span.is_empty() {
                    self.span = span.clone();
                }
                if to.is_none() {
                    self.diverge(&mut st, callee, &av);
                    return vec![];
                }
                let outs = self.call(st, callee, fv, av, tys, *rty);
                let mut r = vec![];
                for (mut s, v) in outs {
                    if s.fx.bot {
                        continue;
                    }
                    if dest.proj.is_empty() {
                        s.set_local(d, dest.local, v);
                    } else {
                        let l = self.resolve(&mut s, dest);
                        if let Loc::P(ptr) = l {
                            self.mem.write(&mut s, &ptr, v);
                        }
                    }
                    r.push((to.unwrap(), s));
                }
                let _ = f;
                r
            }
            Tm::Other(s) => {
                self.notes.insert(format!("unhandled terminator {}", s));
                vec![]
            }
        }
    }
    fn place_ty(&self, body: &Body, p: &Place) -> Option<Ty> {
        let mut ty = body.locals[p.local as usize];
        for e in &p.proj {
            ty = match e {
                PE::Deref => self.mem.ptr_elem(ty)?,
                PE::Field(_, t) => *t,
                PE::Index(_) | PE::CIdx(..) => self.mem.seq_elem(ty)?,
                PE::Down(_) => ty,
                PE::Sub(..) => ty,
                PE::Unk => return None,
            }
        }
        Some(ty)
    }
    fn diverge(&mut self, st: &mut State, c: &Callee, _args: &[V]) {
        // a call that never returns: the path must be infeasible
        let mut short = c.decl.clone();
        if let Some(V::Slice(s)) = _args.first() {
            let cc = self.mem.slice_content(st, s);
            if let Some(b) = lit_of(cc) {
                short = format!("{} {}", short, String::from_utf8_lossy(&b));
            }
        }
        if self.trust.iter().any(|x| short.ends_with(x)) {
            st.assume(&F::F);
            return;
        }
        let key = format!("panic:{}:{}", self.here(), short);
        let why = format!("{} reachable in {}", short, self.chain());
        if (self.trace && self.dry == 0) || std::env::var("SA_P").map_or(false, |x| key.contains(&x)) {
            eprintln!("FAIL {} {} at {}\n  {}", key, why, self.span, st.fx.show());
        }
        self.oblige(key, false, "call that panics", why);
        st.assume(&F::F);
    }
    fn switch(&mut self, st: State, v: V, ty: Ty, vals: &[(i128, usize)], other: usize, body: &Body) -> Vec<(usize, State)> {
        let mut out = vec![];
        if let V::Bool(f) = &v {
            // values 0/1
            let f = f.map(&|l| st.fx.norm(l));
            let mut zero = None;
            let mut one = None;
            for (k, t) in vals {
                if *k == 0 {
                    zero = Some(*t)
                } else {
                    one = Some(*t)
                }
            }
            let zero = zero.unwrap_or(other);
            let one = one.unwrap_or(other);
            for (g, t) in [(f.clone(), one), (f.not(), zero)] {
                for s in split(&st, &g) {
                    out.push((t, s));
                }
            }
            return out;
        }
        let l = match &v {
            V::Int(l) => st.fx.norm(l),
            _ => {
                self.notes.insert(format!("switch on unknown value {:?} in {}", v, self.here()));
                Lin::atom(fresh("sw"))
            }
        };
        let _ = ty;
        if let Some(c) = l.is_const() {
            let t = vals.iter().find(|x| x.0 == c).map(|x| x.1).unwrap_or(other);
            return vec![(t, st)];
        }
        for (k, t) in vals {
            let mut s = st.clone();
            if s.assume(&F::eq0(l.addc(-*k))) {
                out.push((*t, s));
            }
        }
        if !matches!(body.blocks[other].t, Tm::Unreachable) {
            let mut s = st.clone();
            let mut ok = true;
            // order from the ends so that ranges tighten
            for (k, _) in vals.iter().chain(vals.iter().rev()) {
                ok = s.assume(&F::eq0(l.addc(-*k)).not());
                if !ok {
                    break;
                }
            }
            if ok {
                out.push((other, s));
            }
        }
        out
    }
    pub fn drop_value(&mut self, st: &mut State, v: &V, ty: Ty) {
        let s = self.prog.ts(ty).to_string();
        self.emit(st, "drop", vec![v.clone()], &s);
        self.drop_rec(st, v, ty, 0);
    }
    fn drop_rec(&mut self, st: &mut State, v: &V, ty: Ty, depth: u32) {
        if depth > 6 || v.is_undef() {
            return;
        }
        let path = self.prog.adt_path(ty).to_string();
        if matches!(path.as_str(), "std::sync::MutexGuard" | "std::sync::RwLockReadGuard" | "std::sync::RwLockWriteGuard" | "std::sync::nonpoison::MutexGuard") {
            let t = match self.prog.k(ty) {
                TK::Adt { args, .. } => args.iter().find(|a| **a != u32::MAX).cloned().unwrap_or(u32::MAX),
                _ => u32::MAX,
            };
            let k = format!("lock:{}", self.prog.ts(t));
            if let V::Adt(a) = v {
                if let Some(r) = a.f.first() {
                    let c = self.mem.deref_all(st, r);
                    if !c.is_undef() {
                        self.capture(st, &k, &c);
                    }
                }
            }
            self.emit(st, "unlock", vec![v.clone()], &k);
            return;
        }
        if path.starts_with("dashmap::mapref") {
            let vt = match self.prog.k(ty) {
                TK::Adt { args, .. } => args.iter().filter(|x| !self.prog.adt_path(**x).contains("RandomState")).nth(1).cloned().unwrap_or(u32::MAX),
                _ => u32::MAX,
            };
            let k = format!("map:{}", self.prog.ts(vt));
            self.emit(st, "unlock", vec![v.clone()], &k);
            return;
        }
        if self.prog.is_local_adt(ty) {
            let f = self.prog.fns.iter().position(|f| f.local && f.trait_.as_deref() == Some("std::ops::Drop") && f.self_ty == Some(ty) && f.body.is_some());
            if let Some(f) = f {
                let r = self.mem.temp_ref(st, v.clone(), ty);
                let outs = self.exec_fn(st.clone(), f, vec![r]);
                // the destructor of a value of the crate returns on some path
                let ss: Vec<State> = outs.into_iter().map(|x| x.0).collect();
                let m = self.merge(ss);
                if let Some(s) = m.into_iter().next() {
                    *st = s;
                }
            }
        }
        match v {
            V::Adt(a) => {
                let ts = match self.mem.field_tys(ty, a.var) {
                    Some(t) => t,
                    None => return,
                };
                for (i, t) in ts.iter().enumerate() {
                    if let Some(x) = a.f.get(i) {
                        self.drop_rec(st, &x.clone(), *t, depth + 1);
                    }
                }
            }
            V::Ref(_) if path == "std::boxed::Box" => {
                let t = match self.prog.k(ty) {
                    TK::Adt { args, .. } => args.first().cloned().unwrap_or(u32::MAX),
                    _ => return,
                };
                let x = self.mem.deref_all(st, v);
                self.drop_rec(st, &x, t, depth + 1);
            }
            _ => {}
        }
    }

    // ---- calls
    pub fn exec_raw(&mut self, mut st: State, f: FnId, args: Vec<V>) -> Vec<(State, V)> {
        let prog = self.prog.clone();
        let fun = &prog.fns[f];
        let body = match &fun.body {
            Some(b) => b,
            None => return vec![],
        };
        if self.stack.len() > self.inline_depth {
            self.notes.insert(format!("inline depth at {}", fun.path));
            self.impure += 1;
            let v = self.mem.fresh("deep", body.locals[0]);
            return vec![(st, v)];
        }
        if self.stack.contains(&f) {
            self.recursion.insert(f);
            self.impure += 1;
            self.emit(&mut st, "recurse", args.clone(), &fun.path.clone());
            let v = self.mem.fresh("rec", body.locals[0]);
            self.emit(&mut st, "recursed", vec![v.clone()], &fun.path.clone());
            return vec![(st, v)];
        }
        let body: Rc<Body> = Rc::new(body.clone());
        self.analysed.insert(f);
        let mut fr = vec![V::Undef; body.locals.len()];
        for (i, a) in args.iter().enumerate() {
            if i + 1 < fr.len() && i < body.argc {
                fr[i + 1] = a.clone();
            }
        }
        st.fr.push(Rc::new(fr));
        self.ftys.push(Rc::new(body.locals.iter().map(|t| Some(*t)).collect()));
        self.stack.push(f);
        let sp = self.span.clone();
        self.with_mon(|g, m| m.enter(g, &mut st, f, &args));
        let r = self.region(f, &body, 0, st, None);
        let mut outs = vec![];
        for mut s in r.ret {
            // only the result survives
            let d = s.depth();
            let v = s.local(d, 0).clone();
            outs.push((s, v));
        }
        let mut res = vec![];
        if outs.len() > self.merge_at {
            let mut ss = vec![];
            for (mut s, v) in outs {
                let d = s.depth() as usize;
                let n = s.fr[d].len();
                let mut fr = vec![V::Undef; n];
                fr[0] = v;
                s.fr[d] = Rc::new(fr);
                ss.push(s);
            }
            let ms = self.merge(ss);
            outs = ms
                .into_iter()
                .map(|s| {
                    let d = s.depth();
                    let v = s.local(d, 0).clone();
                    (s, v)
                })
                .collect();
        }
        for (mut s, v) in outs {
            self.with_mon(|g, m| m.ret(g, &mut s, f, &v));
            s.fr.pop();
            res.push((s, v));
        }
        self.stack.pop();
        self.ftys.pop();
        self.span = sp;
        res
    }
    /// Calls a closure, function item or function pointer value.
    pub fn call_value(&mut self, mut st: State, fv: &V, args: Vec<V>, rty: Option<Ty>) -> Vec<(State, V)> {
        let mut by_ref: Option<V> = None;
        let mut cur = fv.clone();
        for _ in 0..4 {
            if let V::Ref(p) = &cur {
                by_ref = Some(cur.clone());
                cur = self.mem.read(&mut st, &p.clone());
            } else {
                break;
            }
        }
        match &cur {
            V::Adt(a) => {
                if let TK::Closure { inst, .. } = self.prog.k(a.ty).clone() {
                    let body = match &self.prog.fns[inst].body {
                        Some(b) => b.clone(),
                        None => return self.unknown_call(st, "closure", args, rty),
                    };
                    let self_by_ref = matches!(self.prog.k(body.locals[1]), TK::Ref(..));
                    let me = if self_by_ref {
                        match by_ref {
                            Some(r) => r,
                            None => self.mem.temp_ref(&mut st, cur.clone(), a.ty),
                        }
                    } else {
                        cur.clone()
                    };
                    let mut av = vec![me];
                    av.extend(args);
                    return self.exec_fn(st, inst, av);
                }
                self.unknown_call(st, "call of unknown value", args, rty)
            }
            V::Fnv(t) => {
                if let TK::FnDef(c) = self.prog.k(*t).clone() {
                    let n = args.len();
                    return self.call(st, &c, None, args, &vec![0; n], rty.unwrap_or(u32::MAX));
                }
                self.unknown_call(st, "fn value", args, rty)
            }
            _ => self.unknown_call(st, "indirect call", args, rty),
        }
    }
    pub fn unknown_call(&mut self, mut st: State, name: &str, args: Vec<V>, rty: Option<Ty>) -> Vec<(State, V)> {
        if self.dry == 0 {
            *self.unknown.entry(name.to_string()).or_insert(0) += 1;
        }
        let _ = &args;
        let v = match rty {
            Some(t) if t != u32::MAX => self.mem.fresh("unk", t),
            _ => V::Undef,
        };
        self.emit(&mut st, "unknown", args, name);
        vec![(st, v)]
    }
    fn untuple(&mut self, v: &V) -> Vec<V> {
        match v {
            V::Adt(a) => a.f.clone(),
            _ => vec![],
        }
    }
    pub fn call(&mut self, mut st: State, c: &Callee, fv: Option<V>, args: Vec<V>, tys: &[Ty], rty: Ty) -> Vec<(State, V)> {
        if let Some(fv) = fv {
            // call through a value
            return self.call_value(st, &fv, args, Some(rty));
        }
        let inst_path = c.inst.map(|i| self.prog.fns[i].path.clone()).unwrap_or_default();
        match c.decl.as_str() {
            "std::ops::FnOnce::call_once" | "std::ops::FnMut::call_mut" | "std::ops::Fn::call" => {
                if args.len() == 2 {
                    let a = self.untuple(&args[1]);
                    return self.call_value(st, &args[0], a, Some(rty));
                }
            }
            _ => {}
        }
        if c.ctor {
            if let Some((ty, var)) = c.inst.and_then(|i| self.prog.fns[i].ctor) {
                return vec![(st, V::adt(ty, var, args))];
            }
        }
        if let Some(r) = crate::models::model(self, &mut st, c, &inst_path, &args, tys, rty) {
            return r;
        }
        if let Some(i) = c.inst {
            if self.prog.fns[i].ctor.is_some() {
                let (ty, var) = self.prog.fns[i].ctor.unwrap();
                return vec![(st, V::adt(ty, var, args))];
            }
            if self.prog.fns[i].body.is_some() {
                let n_args = self.prog.fns[i].body.as_ref().unwrap().argc;
                let mut args = args;
                if self.prog.fns[i].kind.contains("losure") && args.len() == 2 && n_args != 2 {
                    let t = self.untuple(&args[1]);
                    args.truncate(1);
                    args.extend(t);
                }
                return self.exec_fn(st, i, args);
            }
        }
        // unknown: forget what it can modify
        for (i, a) in args.iter().enumerate() {
            let m = match tys.get(i).map(|t| self.prog.k(*t).clone()) {
                Some(TK::Ref(_, m)) => m,
                Some(TK::Ptr(_, m)) => m,
                _ => false,
            };
            if m {
                self.mem.havoc_behind(&mut st, a);
            }
        }
        let name = if inst_path.is_empty() { c.decl.clone() } else { inst_path };
        self.unknown_call(st, &name, args, Some(rty))
    }
    /// Runs a function of the crate on arbitrary arguments.
    pub fn run_root(&mut self, f: FnId, setup: &mut dyn FnMut(&mut Engine, &mut State, &[Ty]) -> Vec<V>) -> Vec<(State, V)> {
        let prog = self.prog.clone();
        let body = match &prog.fns[f].body {
            Some(b) => b,
            None => return vec![],
        };
        let tys: Vec<Ty> = body.locals[1..=body.argc].to_vec();
        let mut st = State::new();
        // a bottom frame for temporaries of the driver
        st.fr.push(Rc::new(vec![]));
        self.ftys = vec![Rc::new(vec![])];
        self.stack.clear();
        let args = setup(self, &mut st, &tys);
        self.exec_fn(st, f, args)
    }
}
/// Case split on a condition: disjunctions become separate states.
pub fn split(st: &State, f: &F) -> Vec<State> {
    match f {
        F::T => vec![st.clone()],
        F::F => vec![],
        F::Or(a, b) => {
            let mut r = split(st, a);
            let nb = F::and(&a.not(), b);
            r.extend(split(st, &nb));
            r
        }
        F::And(a, b) => {
            let mut r = vec![];
            for s in split(st, a) {
                r.extend(split(&s, b));
            }
            r
        }
        _ => {
            let mut s = st.clone();
            if s.assume(f) {
                vec![s]
            } else {
                vec![]
            }
        }
    }
}
/// Decomposes a linear expression into disjoint bit fields (atom, shift, width).
pub fn fields(l: &Lin) -> Option<Vec<(T, i128, i128)>> {
    let mut v: Vec<(T, i128, i128)> = vec![];
    if l.c < 0 {
        return None;
    }
    for (t, k) in &l.m {
        if *k <= 0 || (k & (k - 1)) != 0 {
            return None;
        }
        let (lo, hi) = range(*t)?;
        if lo < 0 || (hi & (hi + 1)) != 0 {
            return None;
        }
        let w = 128 - (hi as u128).leading_zeros() as i128;
        v.push((*t, k.trailing_zeros() as i128, w));
    }
    v.sort_by_key(|x| x.1);
    for i in 1..v.len() {
        if v[i - 1].1 + v[i - 1].2 > v[i].1 {
            return None;
        }
    }
    for (_, s, w) in &v {
        let mask = ((1i128 << w) - 1) << s;
        if l.c & mask != 0 {
            return None;
        }
    }
    Some(v)
}
fn disjoint_bits(a: &Lin, b: &Lin) -> bool {
    match (fields(a), fields(b)) {
        (Some(_), Some(_)) => fields(&a.add(b)).is_some() && a.c & b.c == 0,
        _ => false,
    }
}
/// A byte compared to 128 is one whose top bit is looked at.
fn top_bit(f: F) -> F {
    if let F::Le(l) = &f {
        if let [(a, k)] = &l.m[..] {
            let top = match (*k, l.c) {
                (1, -127) => 0,
                (-1, 128) => 1,
                _ => return f,
            };
            if range(*a) == Some((0, 255)) {
                return F::Eq(bits(*a, 7, 1).addc(-top));
            }
        }
    }
    f
}
pub fn bits(t: T, lo: i128, w: i128) -> Lin {
    // fields of fields
    if let Some(a) = is_app(t, "bits") {
        let l0 = lt(a[1]).c;
        return bits(a[0], l0 + lo, w);
    }
    lt(mk("bits", vec![t, tl(&Lin::k(lo)), tl(&Lin::k(w))], Some((0, (1i128 << w) - 1))))
}
