// Models of the outside world: files, paths, locks, shared maps, formatting of constants.
use crate::exec::*;
use crate::models::*;
use crate::prog::*;
use crate::rx;
use crate::term::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};
use crate::fx::{HashMap, HashSet};
use std::rc::Rc;

fn last(p: &str) -> &str {
    p.rsplit("::").next().unwrap_or(p)
}

// ---- values shared through places the analysis does not track one by one: for every such
// place a description of everything that is ever put there, closed under the whole run.
pub struct Part {
    pub shape: String,
    pub st: State,
    pub pset: HashSet<T>,
    pub rounds: usize,
}
#[derive(Default)]
pub struct Inv {
    pub m: BTreeMap<String, Vec<Part>>,
    pub changed: bool,
    pub used: BTreeSet<String>,
}
pub fn leaves(t: T, out: &mut BTreeSet<T>) {
    for x in deep(t).iter() {
        if let K::Fresh(..) = kind(*x) {
            out.insert(*x);
        }
    }
}
fn lin_leaves(l: &Lin, out: &mut BTreeSet<T>) {
    for (a, _) in &l.m {
        leaves(*a, out);
    }
}
pub fn v_leaves(v: &V, out: &mut BTreeSet<T>, roots: &mut Vec<T>) {
    let p_leaves = |p: &Ptr, out: &mut BTreeSet<T>, roots: &mut Vec<T>| {
        if let Root_::Heap(t) = p.root {
            leaves(t, out);
            roots.push(t);
        }
        for x in p.path.iter() {
            if let Pj::El(l) = x {
                lin_leaves(l, out)
            }
        }
    };
    let s_leaves = |s: &SeqV, out: &mut BTreeSet<T>, roots: &mut Vec<T>| {
        leaves(s.c, out);
        lin_leaves(&s.len, out);
        if let Tpl::V(t) = &s.tpl {
            v_leaves(&t.v, out, roots);
            for f in &t.fs {
                f.visit(&mut |l| lin_leaves(l, out));
            }
        }
        for q in &s.q {
            lin_leaves(&q.lo, out);
            lin_leaves(&q.hi, out);
            q.f.visit(&mut |l| lin_leaves(l, out));
        }
    };
    match v {
        V::Undef | V::Fnv(_) => {}
        V::Int(l) => lin_leaves(l, out),
        V::Bool(f) => f.visit(&mut |l| lin_leaves(l, out)),
        V::Adt(a) => a.f.iter().for_each(|x| v_leaves(x, out, roots)),
        V::Opq(t, _) => leaves(*t, out),
        V::Ref(p) => p_leaves(p, out, roots),
        V::Slice(s) => {
            s_leaves(&s.seq, out, roots);
            lin_leaves(&s.off, out);
            lin_leaves(&s.len, out);
            if let Some(p) = &s.loc {
                p_leaves(p, out, roots)
            }
        }
        V::Seq(s) => s_leaves(s, out, roots),
    }
}
impl Engine {
    /// A state holding only a value (and the memory it refers to).
    pub fn capsule(&mut self, st: &State, v: &V) -> State {
        let mut lv = BTreeSet::new();
        let mut roots = vec![];
        v_leaves(v, &mut lv, &mut roots);
        let mut heap = BTreeMap::new();
        let mut seen = BTreeSet::new();
        while let Some(t) = roots.pop() {
            if !seen.insert(t) {
                continue;
            }
            if let Some(x) = st.heap.get(&t) {
                v_leaves(x, &mut lv, &mut roots);
                heap.insert(t, x.clone());
            }
        }
        let mut s = State::new();
        s.fr = vec![Rc::new(vec![v.clone()])];
        s.heap = Rc::new(heap);
        let live: HashSet<T> = lv.into_iter().collect();
        let mut fx = (*st.fx).clone();
        fx.project(&live);
        s.fx = Rc::new(fx);
        s
    }
    pub fn capture(&mut self, st: &State, key: &str, v: &V) {
        if self.dry > 0 {
            return;
        }
        let s = self.capsule(st, v);
        let shape = self.shape(&s);
        let mut parts = self.inv.m.remove(key).unwrap_or_default();
        // bound the number of shapes
        let i = match parts.iter().position(|p| p.shape == shape) {
            Some(i) => Some(i),
            None if parts.len() >= 48 => Some(0),
            None => None,
        };
        match i {
            None => {
                parts.push(Part { shape, st: s, pset: HashSet::default(), rounds: 0 });
                self.inv.changed = true;
            }
            Some(i) => {
                let sv = std::mem::take(&mut self.ftys);
                self.ftys = vec![Rc::new(vec![None])];
                let (p, ps) = (parts[i].st.clone(), parts[i].pset.clone());
                // distinct atoms on the two sides
                let b = self.renamed(&s);
                let (n, ch, nps) = self.join(&p, &b, &ps);
                self.ftys = sv;
                if ch && std::env::var("SA_CAP").map_or(false, |x| key.contains(&x)) {
                    eprintln!("CAPTURE {} part {} round {} in {}", key, i, parts[i].rounds, self.chain());
                    for (n, z) in [("old", &p), ("in", &b), ("new", &n)] {
                        eprintln!("  -- {}: {:?}", n, z.fr[0][0]);
                        for (k, v) in z.heap.iter() {
                            eprintln!("     {} = {:?}", show(*k), v);
                        }
                        eprintln!("{}", z.fx.show());
                    }
                }
                if ch {
                    parts[i].rounds += 1;
                    parts[i].st = n;
                    parts[i].pset = nps;
                    if parts[i].rounds > 12 {
                        self.notes.insert(format!("invariant {} widened", key));
                        parts[i].st.fx = Rc::new(Default::default());
                    }
                    if parts[i].rounds < 16 {
                        self.inv.changed = true;
                    }
                }
            }
        }
        self.inv.m.insert(key.to_string(), parts);
    }
    fn renamed(&mut self, s: &State) -> State {
        let mut lv = BTreeSet::new();
        let mut roots = vec![];
        v_leaves(&s.fr[0][0], &mut lv, &mut roots);
        for (k, v) in s.heap.iter() {
            leaves(*k, &mut lv);
            v_leaves(v, &mut lv, &mut roots);
        }
        for f in s.fx.all() {
            f.visit(&mut |l| lin_leaves(l, &mut lv));
        }
        let mut map: HashMap<T, T> = HashMap::default();
        for t in &lv {
            let h = match kind(*t) {
                K::Fresh(_, h) => h,
                _ => "inv",
            };
            let n = fresh(h);
            if let Some(r) = range(*t) {
                set_range(n, r);
            }
            if let Some(ty) = self.mem.heap_ty.get(t).cloned() {
                self.mem.heap_ty.insert(n, ty);
            }
            map.insert(*t, n);
        }
        let fm = |a: T| map.get(&a).map(|x| lt(*x));
        let tc = |d: &BTreeSet<T>| d.iter().any(|x| map.contains_key(x));
        let sb = Subst::new(&fm, &tc);
        let v = self.mem.subst_v(&s.fr[0][0], &sb);
        let mut heap = BTreeMap::new();
        for (k, x) in s.heap.iter() {
            let nk = sb.t(*k);
            if let Some(ty) = self.mem.heap_ty.get(k).cloned() {
                self.mem.heap_ty.insert(nk, ty);
            }
            let nx = self.mem.subst_v(x, &sb);
            heap.insert(nk, nx);
        }
        let mut fx = crate::facts::Facts::default();
        for f in s.fx.all() {
            fx.assume(&f.map(&|l| sb.lin(l)));
        }
        let mut r = State::new();
        r.fr = vec![Rc::new(vec![v])];
        r.heap = Rc::new(heap);
        r.fx = Rc::new(fx);
        r
    }
    pub fn instantiate_ty(&mut self, st: &State, key: &str, ty: Ty) -> Outs {
        if self.arb {
            let v = self.mem.fresh("held", ty);
            return vec![(st.clone(), v)];
        }
        self.instantiate(st, key)
    }
    pub fn instantiate(&mut self, st: &State, key: &str) -> Outs {
        self.inv.used.insert(key.to_string());
        let parts: Vec<State> = match self.inv.m.get(key) {
            None => return vec![],
            Some(p) => p.iter().map(|x| x.st.clone()).collect(),
        };
        let mut r = vec![];
        for s in parts {
            let n = self.renamed(&s);
            let mut z = st.clone();
            let mut ok = true;
            for f in n.fx.all() {
                ok = ok && z.assume(&f);
            }
            if !ok {
                continue;
            }
            {
                let h = Rc::make_mut(&mut z.heap);
                for (k, v) in n.heap.iter() {
                    h.insert(*k, v.clone());
                }
            }
            r.push((z, n.fr[0][0].clone()));
        }
        r
    }
    pub fn cell(&mut self, st: &mut State, v: V, ty: Ty) -> V {
        self.mem.temp_ref(st, v, ty)
    }
    pub fn regex_of(&mut self, t: T) -> Option<Vec<u8>> {
        let a = is_app(t, "regex")?;
        lit_of(a[0]).map(|x| (*x).clone())
    }
}
/// Whether a capture group takes part in every match.
pub fn group_always(e: &mut Engine, re: T, k: i128) -> Option<bool> {
    let p = e.regex_of(re)?;
    let r = rx::parse(&p)?;
    if k == 0 {
        return Some(true);
    }
    r.group_always(k as usize)
}
fn pathop(name: &str, a: Vec<T>) -> T {
    app(name, a)
}

pub fn io(e: &mut Engine, st: &mut State, c: &Callee, d: &str, p: &str, a: &[V], tys: &[Ty], rty: Ty) -> Option<Outs> {
    let m = last(p).to_string();
    let m = m.as_str();
    // ---- constants built by formatting
    match p {
        _ if p.starts_with("core::fmt::rt::Argument::<'_>::new_") && a.len() == 1 && rty != u32::MAX => {
            let v = match e.mem.as_slice(st, &a[0]) {
                Some(s) if is_seq_ty(e, tys[0]) && m == "new_display" => V::Slice(s),
                _ if is_seq_ty(e, tys[0]) => V::Undef,
                _ => match e.mem.deref_all(st, &a[0]) {
                    V::Int(l) => V::Int(l),
                    _ => V::Undef,
                },
            };
            return one(st, V::adt(rty, 0, vec![v]));
        }
        "std::fmt::Arguments::<'a>::new" if a.len() == 2 => {
            return one(st, V::adt(rty, 0, vec![a[0].clone(), a[1].clone()]));
        }
        "std::fmt::format" => {
            if let V::Adt(x) = &a[0] {
                if x.f.len() == 2 {
                    let t = e.content(st, &x.f[0]);
                    if let Some(tb) = lit_of(t) {
                        let args = e.sl(st, &x.f[1]);
                        let n = st.fx.norm(&args.len).is_const();
                        let mut vals: Vec<Vec<u8>> = vec![];
                        let mut all = true;
                        if let Some(n) = n {
                            for i in 0..n {
                                let v = e.mem.slice_elem(st, &args, &Lin::k(i));
                                let b = match &v {
                                    V::Adt(y) => match y.f.first() {
                                        Some(V::Slice(_)) if n == 1 => {
                                            let cc = e.content(st, &y.f[0]);
                                            lit_of(cc)
                                        }
                                        _ => None,
                                    },
                                    _ => None,
                                };
                                match b {
                                    Some(b) => vals.push((*b).clone()),
                                    None => all = false,
                                }
                            }
                            if all {
                                if let Some(out) = fmt_template(&tb, &vals) {
                                    let el = e.mem.u8_ty;
                                    return one(st, V::Seq(Rc::new(SeqV { c: lit(&out), len: Lin::k(out.len() as i128), ety: el, tpl: Tpl::Any, q: vec![] })));
                                }
                            }
                        }
                    }
                }
            }
            // what it says depends on the numbers in it
            let mut parts = vec![fresh("format"), lit(b"/")];
            if let V::Adt(x) = &a[0] {
                if x.f.len() == 2 {
                    let args = e.sl(st, &x.f[1]);
                    let t = e.content(st, &x.f[0]);
                    if lit_of(t).is_some() && is_app(args.seq.c, "arr").is_some() {
                        parts[1] = t;
                    }
                    parts.extend(is_app(args.seq.c, "arr").unwrap_or_default().into_iter().skip(1));
                }
            }
            let v = e.mem.mat(app("formatted", parts), rty);
            return one(st, v);
        }
        _ => {}
    }
    if p.starts_with("<once_cell::sync::Lazy") || p.contains("LazyLock") || p.starts_with("once_cell::sync::Lazy") || p.starts_with("once_cell::sync::OnceCell::<T>::get_or_init") || p.contains("OnceLock") {
        let ty = peel(e, rty);
        if e.prog.adt_path(ty).ends_with("::Regex") {
            if let Some(v) = lazy_regex(e, ty) {
                let h = { let n = lit(e.prog.ts(ty).as_bytes()); app("lazy", vec![n]) };
                e.mem.heap_ty.insert(h, ty);
                Rc::make_mut(&mut st.heap).insert(h, v);
                return one(st, V::Ref(Ptr::heap(h)));
            }
        }
        if m == "new" {
            return None;
        }
        let h = { let n = lit(e.prog.ts(ty).as_bytes()); app("lazy", vec![n]) };
        e.mem.heap_ty.insert(h, ty);
        return one(st, V::Ref(Ptr::heap(h)));
    }
    // ---- locks
    if p.starts_with("std::sync::Mutex::<T>::") || p.starts_with("std::sync::RwLock::<T>::") {
        let key = |e: &Engine, t: Ty| format!("lock:{}", e.prog.ts(t));
        match m {
            "new" => {
                let t = targ(e, rty, 0);
                let k = key(e, t);
                e.capture(st, &k, &a[0]);
                return one(st, V::adt(rty, 0, vec![a[0].clone()]));
            }
            "get_mut" => {
                let t = targ(e, peel(e, tys[0]), 0);
                let ok = targ(e, rty, 0);
                let _ = ok;
                let r = match &a[0] {
                    V::Ref(q) => V::Ref(q.push(Pj::F(0, 0, t))),
                    _ => {
                        let v = e.mem.fresh("locked", t);
                        e.cell(st, v, t)
                    }
                };
                return one(st, okv(rty, r));
            }
            "into_inner" => {
                let v = match &a[0] {
                    V::Adt(x) => x.f[0].clone(),
                    _ => V::Undef,
                };
                return one(st, okv(rty, v));
            }
            "lock" | "try_lock" | "read" | "write" => {
                let mt = peel(e, tys[0]);
                let t = targ(e, mt, 0);
                let k = key(e, t);
                // what the mutex was built with
                if let V::Ref(q) = &a[0] {
                    if let V::Adt(x) = e.mem.read(st, &q.clone()) {
                        if let Some(v) = x.f.first() {
                            if !v.is_undef() {
                                e.capture(st, &k, &v.clone());
                            }
                        }
                    }
                }
                let gt = targ(e, rty, 0);
                let mut r = vec![];
                e.emit(st, "lock", vec![a[0].clone()], &k);
                for (mut z, v) in e.instantiate_ty(st, &k, t) {
                    let h = fresh("guarded");
                    e.mem.heap_ty.insert(h, t);
                    Rc::make_mut(&mut z.heap).insert(h, v);
                    let rf = V::Ref(Ptr::heap(h));
                    e.emit(&mut z, "locked", vec![rf.clone(), a[0].clone()], &k);
                    r.push((z, okv(rty, V::adt(gt, 0, vec![rf]))));
                }
                if m == "try_lock" {
                    let er = e.mem.fresh("would_block", targ(e, rty, 1));
                    r.push((st.clone(), errv(rty, er)));
                }
                return Some(r);
            }
            _ => {}
        }
    }
    if (d == "std::ops::Deref::deref" || d == "std::ops::DerefMut::deref_mut") && tys.len() == 1 {
        let sp = path_of(e, tys[0]);
        if sp.starts_with("std::sync::Mutex") || sp.starts_with("std::sync::RwLock") || sp.starts_with("dashmap::mapref") {
            let g = e.mem.deref_all(st, &a[0]);
            if let V::Adt(x) = &g {
                let v = if sp.starts_with("dashmap") { x.f.get(1).cloned() } else { x.f.first().cloned() };
                return one(st, v.unwrap_or(V::Undef));
            }
        }
    }
    // ---- shared maps
    if p.starts_with("dashmap::") || p.starts_with("std::collections::HashMap") || p.starts_with("std::collections::BTreeMap") || p.starts_with("std::collections::hash_map") {
        if let Some(r) = maps(e, st, d, p, m, a, tys, rty) {
            return Some(r);
        }
    }
    // ---- errors
    if p == "std::io::Error::kind" {
        let v = e.mem.deref_all(st, &a[0]);
        let t = match v {
            V::Opq(t, _) => t,
            _ => fresh("ioerr"),
        };
        return one(st, V::Opq(app("errkind", vec![t]), rty));
    }
    if p == "std::io::Error::new" || p == "std::io::Error::other" || ((d == "std::convert::From::from" || d == "std::convert::Into::into") && path_of(e, tys[0]) == "std::io::ErrorKind") {
        let t = fresh("ioerr");
        if !p.ends_with("other") {
            let dd = e.discr(st, &a[0]);
            st.assume(&F::eq(&Lin::atom(app("discr", vec![app("errkind", vec![t])])), &dd));
        }
        e.emit(st, "made_error", vec![V::Opq(t, rty)], "");
        return one(st, V::Opq(t, rty));
    }
    // ---- paths
    if let Some(r) = paths(e, st, d, p, m, a, tys, rty) {
        return Some(r);
    }
    // ---- wrappers around streams
    let wrap = matches!(
        p,
        "flate2::read::ZlibDecoder::<R>::new"
            | "flate2::bufread::ZlibDecoder::<R>::new"
            | "flate2::write::ZlibEncoder::<W>::new"
            | "flate2::write::ZlibDecoder::<W>::new"
            | "flate2::read::ZlibEncoder::<R>::new"
            | "std::io::BufReader::<R>::new"
            | "std::io::BufWriter::<W>::new"
            | "std::io::Cursor::<T>::new"
            | "bytes::buf::BufExt::reader"
    ) || d == "bytes::buf::BufExt::reader"
        || d == "std::io::Read::take"
        || (p.starts_with("flate2::") && m == "new");
    if wrap && !p.contains("Compression") {
        e.emit(st, "wrap", a.to_vec(), p);
        return one(st, V::adt(rty, 0, a.to_vec()));
    }
    if p.contains("BufReader::<R>::with_capacity") || p.contains("BufWriter::<W>::with_capacity") {
        let n = e.int_arg(st, &a[0]);
        e.emit(st, "alloc", vec![V::Int(n), V::int(0)], p);
        return one(st, V::adt(rty, 0, vec![a[1].clone()]));
    }
    if d == "std::io::Read::by_ref" || d == "std::io::Write::by_ref" {
        return one(st, a[0].clone());
    }
    if matches!(m, "get_ref" | "get_mut" | "into_inner") && (p.starts_with("flate2::") || p.starts_with("std::io::")) && rty != u32::MAX {
        let inner = match &a[0] {
            V::Ref(q) if m != "into_inner" => {
                let t = peel(e, rty);
                Some(V::Ref(q.push(Pj::F(0, 0, t))))
            }
            V::Adt(x) if m == "into_inner" => x.f.first().cloned(),
            _ => None,
        };
        if let Some(v) = inner {
            return one(st, v);
        }
    }
    // ---- reading and writing
    if d == "std::io::Read::read" || d == "std::io::Read::read_vectored" {
        let s = e.sl(st, &a[1]);
        let len = st.fx.norm(&s.len);
        e.emit(st, "io", a.to_vec(), "read");
        let n = ranged(fresh("nread"), (0, MAXLEN));
        if e.eof {
            return one(st, okv(rty, V::int(0)));
        }
        e.clobber(st, &a[1]);
        return Some(e.fallible(st, rty, "read", a, V::Int(lt(n)), &[F::le(&lt(n), &len)]));
    }
    if d == "std::io::Read::read_exact" {
        e.emit(st, "io", a.to_vec(), "read");
        e.clobber(st, &a[1]);
        let u = targ(e, rty, 0);
        return Some(e.fallible(st, rty, "read_exact", a, V::adt(u, 0, vec![]), &[]));
    }
    if d == "std::io::Read::read_to_end" || d == "std::io::Read::read_to_string" {
        e.emit(st, "io", a.to_vec(), "read");
        let q = e.seq_at(st, &a[1]);
        let n = ulen("nread");
        let nl = q.len.add(&n);
        st.assume(&F::le(&nl, &Lin::k(MAXLEN)));
        let cc = fresh("read_all");
        let from = e.prog.ts(tys[0]).to_string();
        let held = st.fx.norm(&q.len);
        e.emit(st, "read_end", vec![a[0].clone(), V::Int(lt(cc)), V::Int(held)], &from);
        e.put_seq(st, &a[1], SeqV { c: cc, len: nl, q: vec![], ..q });
        return Some(e.fallible(st, rty, "read_to_end", a, V::Int(n), &[]));
    }
    if p == "std::io::copy" {
        e.emit(st, "io", a.to_vec(), "read");
        e.emit(st, "io", vec![a[1].clone(), a[0].clone()], "write_all");
        let n = ranged(fresh("copied"), (0, MAXLEN));
        return Some(e.fallible(st, rty, "copy", a, V::Int(lt(n)), &[]));
    }
    if d.starts_with("std::io::Seek::") {
        e.emit(st, "io", a.to_vec(), "seek");
        if m == "rewind" || d.ends_with("rewind") {
            let u = targ(e, rty, 0);
            return Some(e.fallible(st, rty, "seek", a, V::adt(u, 0, vec![]), &[]));
        }
        let n = ranged(fresh("pos"), (0, MAXLEN));
        let mut r = e.fallible(st, rty, "seek", a, V::Int(lt(n)), &[]);
        // a file is not positioned beyond what the system's signed offsets can say
        let start = match a.get(1).map(|x| e.mem.expand(x, 0)) {
            Some(V::Adt(x)) if x.var == 0 => x.f.first().map(|v| e.as_int(v)),
            _ => None,
        };
        if let (Some(x), true) = (start, tys.first().map_or(false, |t| e.prog.ts(*t).contains("File"))) {
            r.retain_mut(|(s, v)| !matches!(v, V::Adt(o) if o.var == 0) || s.assume(&F::le(&x, &Lin::k(MAXLEN))));
        }
        return Some(r);
    }
    if d.starts_with("std::io::Write::") {
        let op = last(d).to_string();
        e.emit(st, "io", a.to_vec(), &op);
        let u = targ(e, rty, 0);
        if op == "write" {
            let s = e.sl(st, &a[1]);
            let n = ulen("nwritten");
            return Some(e.fallible(st, rty, &op, a, V::Int(n.clone()), &[F::le(&n, &s.len)]));
        }
        return Some(e.fallible(st, rty, &op, a, V::adt(u, 0, vec![]), &[]));
    }
    if p.starts_with("flate2::write::") && matches!(m, "finish" | "try_finish" | "flush_finish") {
        e.emit(st, "io", a.to_vec(), "finish");
        let x = e.mem.deref_all(st, &a[0]);
        let inner = match &x {
            V::Adt(z) if m == "finish" => z.f.first().cloned().unwrap_or(V::Undef),
            _ => V::adt(targ(e, rty, 0), 0, vec![]),
        };
        return Some(e.fallible(st, rty, "finish", a, inner, &[]));
    }
    // ---- the file system
    let fsmod = p.starts_with("std::fs::") || p.starts_with("fs_err::") || p.starts_with("filetime::") || p.starts_with("<fs_err::") || p.starts_with("<std::fs::");
    if fsmod {
        return fsops(e, st, c, p, m, a, tys, rty);
    }
    None
}

fn fsops(e: &mut Engine, st: &mut State, c: &Callee, p: &str, m: &str, a: &[V], tys: &[Ty], rty: Ty) -> Option<Outs> {
    let _ = c;
    if p.contains("OpenOptions") {
        return match m {
            "new" => one(st, V::adt(rty, 0, vec![V::Bool(F::F); 6])),
            "read" | "write" | "append" | "truncate" | "create" | "create_new" => {
                let i = ["read", "write", "append", "truncate", "create", "create_new"].iter().position(|x| *x == m).unwrap();
                if let V::Ref(q) = &a[0] {
                    let bt = e.mem.bool_ty;
                    e.mem.write(st, &q.push(Pj::F(0, i as u32, bt)), a[1].clone());
                }
                one(st, a[0].clone())
            }
            "open" => {
                let o = e.mem.deref_all(st, &a[0]);
                let mut fl = vec![];
                if let V::Adt(x) = &o {
                    for (i, n) in ["read", "write", "append", "truncate", "create", "create_new"].iter().enumerate() {
                        match x.f.get(i) {
                            Some(V::Bool(F::F)) => {}
                            Some(V::Bool(f)) if st.implies(&f.not()) => {}
                            _ => fl.push(*n),
                        }
                    }
                } else {
                    fl = vec!["write", "truncate", "create"];
                }
                let op = format!("open:{}", fl.join(","));
                return file_open(e, st, &op, &a[1], rty);
            }
            _ => None,
        };
    }
    if (p.starts_with("fs_err::File::") || p.starts_with("std::fs::File::")) && matches!(m, "open" | "create" | "create_new") {
        let op = match m {
            "open" => "open:read".to_string(),
            "create" => "open:write,truncate,create".to_string(),
            _ => "open:write,create_new".to_string(),
        };
        return file_open(e, st, &op, &a[0], rty);
    }
    if p == "fs_err::File::from_parts" {
        // keep the identity of the file
        let t = match &a[0] {
            V::Opq(t, _) => *t,
            _ => fresh("file"),
        };
        return one(st, V::Opq(t, rty));
    }
    if p == "fs_err::File::into_parts" {
        let t = match &a[0] {
            V::Opq(t, _) => *t,
            _ => fresh("file"),
        };
        let (x, y) = match e.prog.k(rty) {
            TK::Tuple(v) if v.len() == 2 => (v[0], v[1]),
            _ => return None,
        };
        let pv = e.mem.mat(app("file_path", vec![t]), y);
        return one(st, V::adt(rty, 0, vec![V::Opq(t, x), pv]));
    }
    match m {
        "is_dir" | "is_file" | "is_symlink" => {
            let v = e.mem.deref_all(st, &a[0]);
            let t = match v {
                V::Opq(t, _) => app(m, vec![t]),
                _ => fresh(m),
            };
            return Some(e.fork_bool(st, t, &[]));
        }
        "file_type" if !p.contains("DirEntry") => {
            let v = e.mem.deref_all(st, &a[0]);
            let t = match v {
                V::Opq(t, _) => t,
                _ => fresh(m),
            };
            return one(st, V::Opq(app("file_type", vec![t]), rty));
        }
        "len" | "permissions" | "modified" if p.contains("Metadata") && m != "modified" => {
            let v = e.mem.fresh(m, rty);
            return one(st, v);
        }
        "path" | "file_name" if p.contains("DirEntry") => {
            let v = e.mem.deref_all(st, &a[0]);
            let t = match v {
                V::Opq(t, _) => t,
                _ => fresh("direntry"),
            };
            let cc = app(if m == "path" { "entry_path" } else { "entry_name" }, vec![t]);
            let v = e.bytes_of(cc);
            return one(st, v);
        }
        "path" => {
            let v = e.mem.deref_all(st, &a[0]);
            let t = match v {
                V::Opq(t, _) => t,
                _ => fresh("file"),
            };
            let v = e.view(app("file_path", vec![t]));
            return one(st, v);
        }
        _ => {}
    }
    if e.prog.adt_path(rty) != "std::result::Result" {
        return None;
    }
    let okt = targ(e, rty, 0);
    let op = match m {
        "symlink_metadata" => "lstat".to_string(),
        _ => m.to_string(),
    };
    e.emit(st, "fs", a.to_vec(), &op);
    let ok = match m {
        "read" | "read_to_string" => {
            let cc = fresh("file_content");
            e.bytes_of(cc)
        }
        "read_dir" => {
            let cc = e.content(st, &a[0]);
            let t = app("dir", vec![cc, fresh("readdir")]);
            V::Opq(t, okt)
        }
        "metadata" | "symlink_metadata" | "file_type" => {
            let base = if is_seq_ty(e, tys[0]) {
                e.content(st, &a[0])
            } else {
                match e.mem.deref_all(st, &a[0]) {
                    V::Opq(t, _) => t,
                    _ => fresh("file"),
                }
            };
            V::Opq(app(&op, vec![base]), okt)
        }
        _ => match e.prog.k(okt) {
            TK::Tuple(t) if t.is_empty() => V::adt(okt, 0, vec![]),
            _ => e.mem.fresh(m, okt),
        },
    };
    Some(e.fallible(st, rty, &op, a, ok, &[]))
}
fn file_open(e: &mut Engine, st: &mut State, op: &str, path: &V, rty: Ty) -> Option<Outs> {
    let ft = targ(e, rty, 0);
    let cc = e.content(st, path);
    let t = app("file", vec![cc, fresh("fd")]);
    e.emit(st, "fs", vec![path.clone()], op);
    Some(e.fallible(st, rty, op, &[path.clone()], V::Opq(t, ft), &[]))
}

fn paths(e: &mut Engine, st: &mut State, d: &str, p: &str, m: &str, a: &[V], tys: &[Ty], rty: Ty) -> Option<Outs> {
    if p == "pathdiff::diff_paths" {
        let (x, y) = (e.content(st, &a[0]), e.content(st, &a[1]));
        let v = e.bytes_of(pathop("pdiff", vec![x, y]));
        // None only when one path is absolute and the other is not, or the base has to be left
        // through `..`: not for a path found below the base (trusted, see DESIGN.md)
        e.emit(st, "pdiff", vec![a[0].clone(), a[1].clone()], "");
        return one(st, some(rty, v));
        #[allow(unreachable_code)]
        let t = app("has_pdiff", vec![x, y]);
        let mut r = vec![];
        for (z, b) in e.fork_bool(st, t, &[]) {
            r.push((z, if b == V::Bool(F::T) { some(rty, v.clone()) } else { none(rty) }));
        }
        return Some(r);
    }
    if !(p.starts_with("std::path::Path::") || p.starts_with("std::path::PathBuf::") || p.starts_with("std::path::Component")) {
        let _ = d;
        return None;
    }
    if p.contains("Component::<'a>::") || p.contains("Components") {
        return match m {
            "as_os_str" | "as_path" => {
                let v = e.mem.fresh("component", rty);
                one(st, v)
            }
            _ => None,
        };
    }
    match m {
        "join" => {
            let (x, y) = (e.content(st, &a[0]), e.content(st, &a[1]));
            let v = e.bytes_of(pathop("pjoin", vec![x, y]));
            one(st, v)
        }
        "push" => {
            let (x, y) = (e.content(st, &a[0]), e.content(st, &a[1]));
            let c = pathop("pjoin", vec![x, y]);
            let el = e.mem.u8_ty;
            e.put_seq(st, &a[0], SeqV { c, len: lt(len_t(c)), ety: el, tpl: Tpl::Any, q: vec![] });
            one(st, V::adt(rty, 0, vec![]))
        }
        "with_extension" | "with_file_name" => {
            let (x, y) = (e.content(st, &a[0]), e.content(st, &a[1]));
            let v = e.bytes_of(pathop(m, vec![x, y]));
            one(st, v)
        }
        "set_extension" | "set_file_name" => {
            let (x, y) = (e.content(st, &a[0]), e.content(st, &a[1]));
            let c = pathop(if m == "set_extension" { "with_extension" } else { "with_file_name" }, vec![x, y]);
            let el = e.mem.u8_ty;
            e.put_seq(st, &a[0], SeqV { c, len: lt(len_t(c)), ety: el, tpl: Tpl::Any, q: vec![] });
            if m == "set_extension" {
                return Some(e.fork_bool(st, fresh("set"), &[]));
            }
            one(st, V::adt(rty, 0, vec![]))
        }
        "pop" => {
            let x = e.content(st, &a[0]);
            let c = pathop("parent", vec![x]);
            let el = e.mem.u8_ty;
            e.put_seq(st, &a[0], SeqV { c, len: lt(len_t(c)), ety: el, tpl: Tpl::Any, q: vec![] });
            Some(e.fork_bool(st, fresh("popped"), &[]))
        }
        "file_name" | "extension" | "file_stem" | "parent" => {
            let x = e.content(st, &a[0]);
            let t = app(&format!("has_{}", m), vec![x]);
            let v = e.view(pathop(m, vec![x]));
            let mut r = vec![];
            // a file found in a directory has a name
            let named = m == "file_name" && is_app(x, "entry_path").is_some();
            if named {
                return one(st, some(rty, v));
            }
            for (z, b) in e.fork_bool(st, t, &[]) {
                r.push((z, if b == V::Bool(F::T) { some(rty, v.clone()) } else { none(rty) }));
            }
            Some(r)
        }
        "strip_prefix" => {
            let (x, y) = (e.content(st, &a[0]), e.content(st, &a[1]));
            let v = e.view(pathop("pdiff", vec![x, y]));
            let t = app("path_under", vec![x, y]);
            let mut r = vec![];
            for (z, b) in e.fork_bool(st, t, &[]) {
                if b == V::Bool(F::T) {
                    r.push((z, okv(rty, v.clone())));
                } else {
                    let er = e.mem.fresh("strip_err", targ(e, rty, 1));
                    r.push((z, errv(rty, er)));
                }
            }
            Some(r)
        }
        "components" | "iter" => {
            let s = e.sl(st, &a[0]);
            let c = e.mem.slice_content(st, &s);
            let v = e.view(c);
            let left = ranged(app("ncomponents", vec![c]), (0, MAXLEN));
            one(st, V::adt(rty, 0, vec![v, V::int(0), V::Int(Lin::atom(left))]))
        }
        "exists" | "is_dir" | "is_file" | "is_symlink" | "try_exists" => {
            e.emit(st, "fs", a.to_vec(), m);
            if m == "try_exists" {
                let b = V::Bool(F::atom(fresh("exists")));
                let mut r = vec![];
                for (mut z, v) in e.fallible(st, rty, m, a, b, &[]) {
                    match &v {
                        V::Adt(x) if x.var == 0 => {
                            for t in [true, false] {
                                let mut w = z.clone();
                                e.emit(&mut w, if t { "exists_true" } else { "exists_false" }, a.to_vec(), "");
                                r.push((w, okv(rty, V::Bool(F::of(t)))));
                            }
                        }
                        _ => r.push((z.clone(), v)),
                    }
                    z.fr.truncate(z.fr.len());
                }
                return Some(r);
            }
            let x = e.content(st, &a[0]);
            let t = app(m, vec![x, fresh("now")]);
            let mut r = e.fork_bool(st, t, &[]);
            if m != "is_dir" && m != "is_symlink" {
                for (z, v) in r.iter_mut() {
                    let t = *v == V::Bool(F::T);
                    e.emit(z, if t { "exists_true" } else { "exists_false" }, a.to_vec(), "");
                }
            }
            Some(r)
        }
        "is_absolute" | "is_relative" | "has_root" => {
            let x = e.content(st, &a[0]);
            let abs = ranged(app("is_absolute", vec![x]), (0, 1));
            let f = F::atom(abs);
            one(st, V::Bool(if m == "is_relative" { f.not() } else { f }))
        }
        "metadata" | "symlink_metadata" | "read_dir" | "canonicalize" | "read_link" => fsops(e, st, &Callee::default(), p, m, a, tys, rty),
        "display" => {
            let v = e.mem.fresh("display", rty);
            one(st, v)
        }
        "to_string_lossy" => {
            let cc = e.content(st, &a[0]);
            let v = e.bytes_of(app("lossy", vec![cc]));
            one(st, V::adt(rty, 1, vec![v]))
        }
        _ => None,
    }
}

fn maps(e: &mut Engine, st: &mut State, d: &str, p: &str, m: &str, a: &[V], tys: &[Ty], rty: Ty) -> Option<Outs> {
    let _ = d;
    let self_t = tys.first().map(|t| peel(e, *t)).unwrap_or(u32::MAX);
    let sp = if self_t == u32::MAX { String::new() } else { e.prog.adt_path(self_t).to_string() };
    let dash = p.contains("dashmap");
    // value type of the map behind a type of the library
    let vt_of = |e: &Engine, t: Ty| -> Option<Ty> {
        match e.prog.k(t) {
            TK::Adt { args, .. } => args.iter().filter(|x| !matches!(e.prog.adt_path(**x), "std::collections::hash_map::RandomState" | "std::hash::RandomState" | "ahash::RandomState")).nth(1).cloned(),
            _ => None,
        }
    };
    let key = |e: &Engine, t: Ty| format!("map:{}", e.prog.ts(t));
    let is_map = matches!(sp.as_str(), "dashmap::DashMap" | "std::collections::HashMap" | "std::collections::BTreeMap");
    if m == "new" || m == "with_capacity" || m == "default" {
        if self_t != u32::MAX && m == "with_capacity" {
            let n = e.int_arg(st, &a[0]);
            e.emit(st, "alloc", vec![V::Int(n), V::int(0)], p);
        }
        let v = V::Opq(app("map", vec![fresh("map")]), rty);
        return one(st, v);
    }
    let map_term = |e: &mut Engine, st: &mut State, v: &V| -> T {
        match e.mem.deref_all(st, v) {
            V::Opq(t, _) => t,
            _ => fresh("map"),
        }
    };
    if is_map {
        let vt = vt_of(e, self_t)?;
        let k = key(e, vt);
        let mt = map_term(e, st, &a[0]);
        match m {
            "insert" => {
                let mut vals = vec![a[0].clone(), a[1].clone(), a[2].clone()];
                if dash {
                    e.emit(st, "lock", vec![a[0].clone()], &k);
                    e.emit(st, "unlock", vec![a[0].clone()], &k);
                }
                vals.truncate(3);
                e.emit(st, "map_insert", vals, &k);
                e.capture(st, &k, &a[2]);
                let v = e.mem.fresh("old", rty);
                return one(st, v);
            }
            "contains_key" => {
                let keyv = a[1].clone();
                if dash {
                    e.emit(st, "lock", vec![a[0].clone()], &k);
                    e.emit(st, "unlock", vec![a[0].clone()], &k);
                }
                let mut r = e.fork_bool(st, fresh("contains"), &[]);
                for (z, v) in r.iter_mut() {
                    if *v == V::Bool(F::T) {
                        e.emit(z, "map_has", vec![a[0].clone(), keyv.clone()], &k);
                    }
                }
                return Some(r);
            }
            "len" => {
                return one(st, V::Int(ulen("maplen")));
            }
            "is_empty" => return Some(e.fork_bool(st, fresh("empty"), &[])),
            "clear" | "retain" | "remove" | "remove_if" => {
                if dash {
                    e.emit(st, "lock", vec![a[0].clone()], &k);
                    e.emit(st, "unlock", vec![a[0].clone()], &k);
                }
                e.emit(st, "map_remove", a.to_vec(), &k);
                if rty == u32::MAX {
                    return one(st, V::Undef);
                }
                let v = e.mem.fresh("removed", rty);
                return one(st, v);
            }
            "get" | "get_mut" => {
                let gt = targ(e, rty, 0);
                let mut r = vec![];
                if dash {
                    e.emit(st, "lock", vec![a[0].clone()], &k);
                }
                for (mut z, v) in e.instantiate_ty(st, &k, vt) {
                    let rf = e.cell(&mut z, v.clone(), vt);
                    e.emit(&mut z, "map_hit", vec![a[0].clone(), a[1].clone(), v], &k);
                    r.push((z, some(rty, if dash { V::adt(gt, 0, vec![a[1].clone(), rf]) } else { rf })));
                }
                let mut z = st.clone();
                if dash {
                    e.emit(&mut z, "unlock", vec![a[0].clone()], &k);
                }
                e.emit(&mut z, "map_miss", vec![a[0].clone(), a[1].clone()], &k);
                r.push((z, none(rty)));
                return Some(r);
            }
            "entry" => {
                if dash {
                    e.emit(st, "lock", vec![a[0].clone()], &k);
                }
                let vs = e.prog.variants(rty).cloned()?;
                let mut r = vec![];
                for (i, v) in vs.iter().enumerate() {
                    let mut z = st.clone();
                    let t = v.fields.first().map(|f| f.ty).unwrap_or(u32::MAX);
                    if v.name == "Occupied" {
                        e.emit(&mut z, "map_hit", vec![a[0].clone(), a[1].clone()], &k);
                    } else {
                        e.emit(&mut z, "map_miss", vec![a[0].clone(), a[1].clone()], &k);
                    }
                    let inner = V::adt(t, 0, vec![a[1].clone(), V::Opq(mt, self_t)]);
                    r.push((z, V::adt(rty, i as u32, vec![inner])));
                }
                return Some(r);
            }
            "iter" | "iter_mut" | "values" | "keys" | "into_iter" => {
                if dash {
                    e.emit(st, "map_iter", vec![a[0].clone()], &k);
                }
                return one(st, V::adt(rty, 0, vec![a[0].clone()]));
            }
            _ => return None,
        }
    }
    // entries and guards
    let self_v = e.mem.deref_all(st, &a.first().cloned().unwrap_or(V::Undef));
    if p.contains("Entry") {
        let vt = vt_of(e, self_t)?;
        let k = key(e, vt);
        let (inner, var) = match &self_v {
            V::Adt(x) if sp.ends_with("::Entry") => match x.f.first() {
                Some(V::Adt(y)) => (y.clone(), Some(x.var)),
                _ => return None,
            },
            V::Adt(x) => (x.clone(), None),
            _ => return None,
        };
        let keyv = inner.f.first().cloned().unwrap_or(V::Undef);
        let mapv = inner.f.get(1).cloned().unwrap_or(V::Undef);
        let occ = match var {
            None => sp.ends_with("OccupiedEntry"),
            Some(v) => e.prog.variants(self_t).and_then(|x| x.get(v as usize).map(|y| y.name == "Occupied")).unwrap_or(false),
        };
        let mut hit = |e: &mut Engine, st: &State, wrap: &dyn Fn(&mut Engine, V) -> V| -> Outs {
            let mut r = vec![];
            for (mut z, v) in e.instantiate_ty(st, &k, vt) {
                let rf = e.cell(&mut z, v.clone(), vt);
                e.emit(&mut z, "map_value", vec![mapv.clone(), keyv.clone(), v], &k);
                let x = wrap(e, rf);
                r.push((z, x));
            }
            r
        };
        match m {
            "get" | "get_mut" if occ => {
                return Some(hit(e, st, &|_, v| v));
            }
            "into_ref" | "into_mut" if occ => {
                let kv = keyv.clone();
                return Some(hit(e, st, &|_, v| if dash { V::adt(rty, 0, vec![kv.clone(), v]) } else { v }));
            }
            "insert" => {
                e.emit(st, "map_insert", vec![mapv.clone(), keyv.clone(), a[1].clone()], &k);
                e.capture(st, &k, &a[1]);
                let rf = e.cell(st, a[1].clone(), vt);
                if e.prog.adt_path(rty).starts_with("dashmap::") {
                    return one(st, V::adt(rty, 0, vec![keyv, rf]));
                }
                if e.mem.ptr_elem(rty).is_some() {
                    return one(st, rf);
                }
                let v = e.mem.fresh("old", rty);
                return one(st, v);
            }
            "key" => {
                let t = peel(e, rty);
                let r = match &keyv {
                    V::Ref(_) | V::Slice(_) => keyv.clone(),
                    _ => e.cell(st, keyv.clone(), t),
                };
                return one(st, r);
            }
            "or_insert" | "or_insert_with" | "or_try_insert_with" | "or_default" | "or_insert_with_key" => {
                let guard = |e: &Engine, kv: V, rf: V, t: Ty| -> V {
                    if e.prog.adt_path(t).starts_with("dashmap::") {
                        V::adt(t, 0, vec![kv, rf])
                    } else {
                        rf
                    }
                };
                let gt = if m == "or_try_insert_with" { targ(e, rty, 0) } else { rty };
                if occ {
                    let kv = keyv.clone();
                    return Some(hit(e, st, &|e, v| {
                        let g = guard(e, kv.clone(), v, gt);
                        if m == "or_try_insert_with" {
                            okv(rty, g)
                        } else {
                            g
                        }
                    }));
                }
                let vals: Outs = match m {
                    "or_insert" => vec![(st.clone(), a[1].clone())],
                    "or_default" => {
                        let v = e.mem.fresh("default", vt);
                        vec![(st.clone(), v)]
                    }
                    _ => e.call_value(st.clone(), &a[1], vec![], None),
                };
                let mut r = vec![];
                for (mut z, v) in vals {
                    let v = if m == "or_try_insert_with" {
                        let ety = targ(e, rty, 1);
                        match &v {
                            V::Adt(x) if x.var == 0 => x.f[0].clone(),
                            V::Adt(x) => {
                                e.emit(&mut z, "unlock", vec![mapv.clone()], &k);
                                r.push((z, errv(rty, x.f[0].clone())));
                                continue;
                            }
                            _ => {
                                let er = e.mem.fresh("err", ety);
                                let mut w = z.clone();
                                e.emit(&mut w, "unlock", vec![mapv.clone()], &k);
                                r.push((w, errv(rty, er)));
                                e.mem.fresh("value", vt)
                            }
                        }
                    } else {
                        v
                    };
                    e.emit(&mut z, "map_insert", vec![mapv.clone(), keyv.clone(), v.clone()], &k);
                    e.capture(&z, &k, &v);
                    let rf = e.cell(&mut z, v, vt);
                    let g = guard(e, keyv.clone(), rf, gt);
                    r.push((z, if m == "or_try_insert_with" { okv(rty, g) } else { g }));
                }
                return Some(r);
            }
            _ => return None,
        }
    }
    if p.contains("mapref::") {
        if let V::Adt(x) = &self_v {
            match m {
                "value" | "value_mut" | "deref" | "deref_mut" => return one(st, x.f.get(1).cloned().unwrap_or(V::Undef)),
                "key" => {
                    let t = peel(e, rty);
                    let kv = x.f[0].clone();
                    let r = match &kv {
                        V::Ref(_) | V::Slice(_) => kv,
                        _ => e.cell(st, kv, t),
                    };
                    return one(st, r);
                }
                "pair" => return None,
                _ => {}
            }
        }
    }
    None
}
/// The regular expression held by a lazily initialised static, when the crate has exactly one.
pub fn lazy_regex(e: &mut Engine, ty: Ty) -> Option<V> {
    if let Some(v) = &e.lazy_regex {
        return v.clone();
    }
    let prog = e.prog.clone();
    let c: Vec<FnId> = (0..prog.fns.len())
        .filter(|i| {
            let f = &prog.fns[*i];
            f.local && f.body.as_ref().map_or(false, |b| b.locals[0] == ty)
        })
        .collect();
    // every way a pattern is made has to agree
    let mut res: Option<V> = None;
    let mut same = true;
    for f in c {
        e.dry += 1;
        let sv = (e.ftys.clone(), e.stack.clone(), e.mon.take());
        e.stack.clear();
        let mut s = State::new();
        s.fr.push(Rc::new(vec![]));
        e.ftys = vec![Rc::new(vec![])];
        let argc = prog.fns[f].body.as_ref().unwrap().argc;
        let args: Vec<V> = (0..argc).map(|_| V::Undef).collect();
        let r = e.exec_fn(s, f, args);
        e.ftys = sv.0;
        e.stack = sv.1;
        e.mon = sv.2;
        e.dry -= 1;
        for (_, v) in r {
            if let V::Opq(..) = v {
                if res.as_ref().map_or(false, |x| *x != v) {
                    same = false;
                }
                res = Some(v);
            }
        }
    }
    if !same {
        res = None;
    }
    e.lazy_regex = Some(res.clone());
    res
}
/// Expands the compiled form of a format string with literal arguments. The encoding is that
/// of core::fmt::Arguments: a length byte followed by that many literal bytes, 0x80 with a
/// 16-bit length, 0xC0.. for an argument, and 0 at the end.
fn fmt_template(t: &[u8], args: &[Vec<u8>]) -> Option<Vec<u8>> {
    let mut out = vec![];
    let mut i = 0;
    let mut next = 0usize;
    while i < t.len() {
        let b = t[i];
        i += 1;
        if b == 0 {
            return Some(out);
        }
        if b < 0x80 {
            let n = b as usize;
            out.extend(t.get(i..i + n)?);
            i += n;
        } else if b == 0x80 {
            let n = *t.get(i)? as usize | (*t.get(i + 1)? as usize) << 8;
            i += 2;
            out.extend(t.get(i..i + n)?);
            i += n;
        } else if b & 0xc0 == 0xc0 {
            if b & 1 != 0 {
                i += 4;
            }
            if b & 2 != 0 {
                i += 2;
            }
            if b & 4 != 0 {
                i += 2;
            }
            if b & 8 != 0 {
                next = *t.get(i)? as usize | (*t.get(i + 1)? as usize) << 8;
                i += 2;
            }
            out.extend(args.get(next)?);
            next += 1;
        } else {
            return None;
        }
    }
    Some(out)
}

/// The next value of an iterator over a shared map: anything ever put in it.
pub fn map_next(e: &mut Engine, st: State, it: &V) -> Vec<(State, Option<V>)> {
    let mut end = st.clone();
    e.emit(&mut end, "map_end", vec![it.clone()], "");
    let mut r = vec![(end, None)];
    let ity = match it {
        V::Adt(a) => a.ty,
        V::Opq(_, t) => *t,
        _ => return r,
    };
    let vt = match e.prog.k(ity) {
        TK::Adt { args, .. } => args.iter().filter(|x| !e.prog.adt_path(**x).contains("RandomState")).nth(1).cloned(),
        _ => None,
    };
    let kt = match e.prog.k(ity) {
        TK::Adt { args, .. } => args.first().cloned(),
        _ => None,
    };
    if let (Some(vt), Some(kt)) = (vt, kt) {
        let k = format!("map:{}", e.prog.ts(vt));
        for (mut z, v) in e.instantiate_ty(&st, &k, vt) {
            e.emit(&mut z, "map_value", vec![it.clone(), v.clone()], &k);
            e.emit(&mut z, "lock", vec![it.clone()], &k);
            let rf = e.cell(&mut z, v, vt);
            let kv = e.mem.fresh("key", kt);
            // a guard: the key and the place of the value
            let g = V::adt(u32::MAX, 0, vec![kv, rf]);
            r.push((z, Some(g)));
        }
    }
    r
}
