// The most general client: every public function of the crate is run on any values a client can
// hold. What a client can hold of the crate's own types is what public functions return, so the
// values returned are collected per type and the runs are repeated until nothing new appears.
use crate::exec::*;
use crate::miter;
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::collections::BTreeSet;

pub struct RunInfo {
    pub path: String,
    pub outs: usize,
    pub steps: u64,
    pub ms: u128,
    pub exhausted: bool,
}
/// Types whose values must come from the crate.
fn opaque_ty(prog: &Prog, ty: Ty, seen: &mut BTreeSet<Ty>) -> bool {
    if !seen.insert(ty) {
        return false;
    }
    match prog.k(ty) {
        TK::Adt { local, is_enum, variants, path, args, .. } => {
            if *local && !*is_enum {
                return !path.ends_with("Error");
            }
            if *local {
                if path.ends_with("Error") {
                    return false;
                }
                return variants.as_ref().map_or(false, |v| v.iter().any(|x| x.fields.iter().any(|f| opaque_ty(prog, f.ty, seen))));
            }
            args.clone().iter().any(|a| opaque_ty(prog, *a, seen))
        }
        TK::Ref(t, _) => opaque_ty(prog, *t, seen),
        TK::Tuple(ts) => ts.clone().iter().any(|t| opaque_ty(prog, *t, seen)),
        _ => false,
    }
}
pub fn is_opaque(prog: &Prog, ty: Ty) -> bool {
    opaque_ty(prog, ty, &mut BTreeSet::new())
}
/// Key of a type, ignoring lifetimes.
fn tkey(prog: &Prog, ty: Ty) -> String {
    let s = prog.ts(ty);
    let mut o = String::new();
    let mut it = s.chars().peekable();
    while let Some(c) = it.next() {
        if c == '\'' {
            while it.peek().map_or(false, |c| c.is_alphanumeric() || *c == '_') {
                it.next();
            }
            continue;
        }
        o.push(c);
    }
    format!("ty:{}", o.replace("<>", ""))
}
impl Engine {
    /// Values of an argument type a client can pass.
    pub fn client_value(&mut self, st: &State, ty: Ty) -> Vec<(State, V)> {
        let prog = self.prog.clone();
        match prog.k(ty) {
            TK::Ref(t, _) if is_opaque(&prog, *t) => {
                let mut r = vec![];
                for (mut s, v) in self.client_value(st, *t) {
                    let rf = self.mem.temp_ref(&mut s, v, *t);
                    r.push((s, rf));
                }
                r
            }
            TK::Adt { local: true, .. } if is_opaque(&prog, ty) => {
                let k = tkey(&prog, ty);
                self.instantiate(st, &k)
            }
            _ => {
                let v = self.mem.fresh("arg", ty);
                vec![(st.clone(), v)]
            }
        }
    }
    /// Records the values of the crate's types inside a returned value.
    pub fn harvest(&mut self, st: &State, v: &V, ty: Ty, depth: u32) {
        if depth > 8 || v.is_undef() {
            return;
        }
        let prog = self.prog.clone();
        match prog.k(ty).clone() {
            TK::Ref(t, _) => {
                let mut s = st.clone();
                if let V::Ref(p) = v {
                    let x = self.mem.read(&mut s, p);
                    self.harvest(&s, &x, t, depth + 1);
                } else if let V::Slice(_) = v {
                    let mut s2 = s.clone();
                    let sl = self.sl(&mut s2, v);
                    let q = V::Seq(sl.seq.clone());
                    self.harvest(&s2, &q, t, depth + 1);
                }
            }
            TK::Tuple(ts) => {
                if let V::Adt(a) = v {
                    for (i, t) in ts.iter().enumerate() {
                        if let Some(x) = a.f.get(i) {
                            self.harvest(st, x, *t, depth + 1);
                        }
                    }
                }
            }
            TK::Adt { path, local, is_enum, .. } => {
                if local {
                    if is_opaque(&prog, ty) {
                        let k = tkey(&prog, ty);
                        self.capture(st, &k, v);
                    }
                    if !is_enum {
                        return;
                    }
                } else if miter::is_iter_path(&path) {
                    // what the iterator yields
                    let item = match self.iter_item(ty) {
                        Some(t) => t,
                        None => return,
                    };
                    if !is_opaque(&prog, item) {
                        // still run it: the closures inside must not fail
                    }
                    let mut s = st.clone();
                    let r = self.mem.temp_ref(&mut s, v.clone(), ty);
                    if let V::Ref(p) = r {
                        for (s2, o) in miter::next(self, s, &p, false) {
                            if let Some(x) = o {
                                self.harvest(&s2, &x, item, depth + 1);
                            }
                        }
                    }
                    return;
                }
                for (s, (var, f)) in self.cases_if_enum(st, v, ty) {
                    if let Some(ts) = self.mem.field_tys(ty, var) {
                        for (i, t) in ts.iter().enumerate() {
                            if let Some(x) = f.get(i) {
                                self.harvest(&s, x, *t, depth + 1);
                            }
                        }
                    }
                }
            }
            _ => {
                if let (V::Seq(q), Some(e)) = (v, self.mem.seq_elem(ty)) {
                    if is_opaque(&prog, e) {
                        let mut s = st.clone();
                        let i = crate::models::ulen("i");
                        if s.assume(&F::lt(&i, &q.len)) {
                            let x = self.mem.elem(&mut s, q, &i);
                            self.harvest(&s, &x, e, depth + 1);
                        }
                    }
                }
            }
        }
    }
    fn cases_if_enum(&mut self, st: &State, v: &V, ty: Ty) -> Vec<(State, (u32, Vec<V>))> {
        match v {
            V::Adt(a) => vec![(st.clone(), (a.var, a.f.clone()))],
            V::Opq(..) if self.prog.is_enum(ty) => self.cases(st, v),
            _ => vec![],
        }
    }
    fn iter_item(&self, ty: Ty) -> Option<Ty> {
        match self.prog.k(ty) {
            TK::Adt { path, args, .. } => match path.as_str() {
                "std::iter::Map" => args.get(1).and_then(|c| match self.prog.k(*c) {
                    TK::Closure { inst, .. } => self.prog.fns[*inst].body.as_ref().map(|b| b.locals[0]),
                    _ => None,
                }),
                _ => None,
            },
            _ => None,
        }
    }
    /// One pass over the public functions.
    pub fn client_pass(&mut self, filter: &dyn Fn(&Root) -> bool) -> Vec<RunInfo> {
        let prog = self.prog.clone();
        let mut info = vec![];
        for r in &prog.roots {
            if !filter(r) {
                continue;
            }
            let body = match &prog.fns[r.inst].body {
                Some(b) => b,
                None => continue,
            };
            let tys: Vec<Ty> = body.locals[1..=body.argc].to_vec();
            let rty = body.locals[0];
            let t0 = std::time::Instant::now();
            let s0 = self.steps;
            let mut st = State::new();
            st.fr.push(std::rc::Rc::new(vec![]));
            self.ftys = vec![std::rc::Rc::new(vec![])];
            self.stack.clear();
            // every combination of argument shapes
            let mut combos: Vec<(State, Vec<V>)> = vec![(st, vec![])];
            for t in &tys {
                let mut n = vec![];
                for (s, a) in combos {
                    for (s2, v) in self.client_value(&s, *t) {
                        let mut a2 = a.clone();
                        a2.push(v);
                        n.push((s2, a2));
                    }
                }
                combos = n;
            }
            let mut outs = 0;
            for (s, a) in combos {
                for (s2, v) in self.exec_fn(s, r.inst, a) {
                    outs += 1;
                    self.root_done(s2, &v, rty);
                }
            }
            info.push(RunInfo { path: r.path.clone(), outs, steps: self.steps - s0, ms: t0.elapsed().as_millis(), exhausted: self.exhausted });
            self.exhausted = false;
        }
        info
    }
    fn root_done(&mut self, mut st: State, v: &V, rty: Ty) {
        self.emit(&mut st, "root_return", vec![v.clone()], "");
        self.harvest(&st, v, rty, 0);
    }
}
