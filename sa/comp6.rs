// C03: every loop and every recursion makes progress towards an end.
use crate::exec::*;
use crate::mons::{kind_in, lcheck};
use crate::prog::*;
use crate::term::*;
use crate::val::*;

/// A way back to the head of a loop: what it does to every number of the state, and whether
/// something was used up on the way.
#[derive(Default, Clone)]
struct Edge {
    used: bool,
    down: std::collections::BTreeSet<String>,
    flat: std::collections::BTreeSet<String>,
}
#[derive(Default)]
pub struct Ends {
    loops: Vec<Loop>,
    watched: std::collections::BTreeSet<String>,
}
struct Loop {
    mark: u64,
    skip: bool,
    edges: Vec<Edge>,
}
const NEAR: i128 = 1 << 20;

/// The numbers in two states, by where they are.
fn numbers(e: &mut Engine, head: &State, back: &State, out: &mut Vec<(String, Lin, Lin)>) {
    for (d, (f, g)) in head.fr.iter().zip(back.fr.iter()).enumerate() {
        for (l, (v, w)) in f.iter().zip(g.iter()).enumerate() {
            walk(e, v, w, &format!("{}.{}", d, l), 0, out);
        }
    }
    for (t, w) in back.heap.iter() {
        let v = e.mem.root(head, Root_::Heap(*t));
        walk(e, &v, w, &format!("h{}", t), 0, out);
    }
}
fn walk(e: &mut Engine, v: &V, w: &V, at: &str, depth: u32, out: &mut Vec<(String, Lin, Lin)>) {
    if depth > 6 {
        return;
    }
    match (v, w) {
        (V::Int(l), V::Int(k)) => out.push((at.to_string(), l.clone(), k.clone())),
        (V::Seq(q), V::Seq(r)) => out.push((format!("{}#", at), q.len.clone(), r.len.clone())),
        (V::Slice(q), V::Slice(r)) => out.push((format!("{}#", at), q.len.clone(), r.len.clone())),
        (V::Adt(a), V::Adt(b)) if a.ty == b.ty && a.var == b.var => {
            for (i, (x, y)) in a.f.iter().zip(b.f.iter()).enumerate() {
                walk(e, x, y, &format!("{}:{}:{}", at, a.var, i), depth + 1, out);
            }
        }
        (V::Opq(..), V::Adt(b)) if e.mem.field_tys(b.ty, b.var).map_or(false, |x| x.len() == b.f.len()) => {
            let x = e.mem.expand(v, b.var);
            if matches!(x, V::Adt(_)) {
                walk(e, &x, w, at, depth, out);
            }
        }
        _ => {}
    }
}
const ENDLESS: &[&str] = &["FromFn<", "Successors<", "Repeat<", "RepeatWith<", "Cycle<", "RangeFrom<", "OnceWith<"];
/// The number that says how much an argument is.
fn size_of(e: &mut Engine, st: &mut State, v: &V) -> Option<Lin> {
    match e.mem.deref_all(st, v) {
        V::Int(l) => Some(l),
        V::Seq(q) => Some(q.len.clone()),
        V::Slice(s) => Some(s.len.clone()),
        _ => None,
    }
}
impl Ends {
    fn key(d: usize) -> String {
        format!("~used{}", d)
    }
    fn progress(&self, e: &mut Engine, st: &mut State, t: Option<T>) {
        e.impure += 1;
        let t = match t {
            Some(t) => t,
            None => return,
        };
        for (d, l) in self.loops.iter().enumerate() {
            if !l.skip && newest(t) <= l.mark {
                st.set_g(&Ends::key(d), 1);
            }
        }
    }
    fn inner(&self) -> Option<usize> {
        self.loops.iter().rposition(|x| !x.skip)
    }
    fn clear(&self, st: &mut State, d: usize) {
        st.set_g(&Ends::key(d), 0);
        st.set_g(&format!("~k{}", d), 0);
        for k in ["n", "e"] {
            let k = format!("~{}{}", k, d);
            if st.gv.contains_key(&k) {
                st.del_gv(&k);
            }
        }
    }
}
impl Mon for Ends {
    fn loop_in(&mut self, e: &mut Engine, name: &str) {
        // a loop inside a library function over what the library knows to end
        let mut skip = name.contains('@');
        if skip {
            if let Some(f) = e.ftys.last() {
                for t in f.iter().flatten() {
                    let s = e.prog.ts(*t);
                    skip &= !ENDLESS.iter().any(|x| s.contains(x));
                }
            }
        }
        self.loops.push(Loop { mark: fresh_mark(), skip, edges: vec![] });
    }
    fn loop_head(&mut self, _e: &mut Engine, st: &mut State) {
        let d = self.loops.len();
        if d > 0 {
            self.clear(st, d - 1);
        }
    }
    fn loop_out(&mut self, e: &mut Engine, name: &str) {
        let edges = match self.loops.pop() {
            Some(x) if x.skip => return,
            Some(x) => x.edges,
            None => return,
        };
        if e.dry > 0 {
            return;
        }
        let mut left: Vec<Edge> = edges.into_iter().filter(|x| !x.used).collect();
        let mut by = vec![];
        loop {
            if left.is_empty() {
                break;
            }
            let mut cand: Vec<String> = left.iter().flat_map(|x| x.down.iter().cloned()).collect();
            cand.sort();
            cand.dedup();
            match cand.into_iter().find(|m| left.iter().all(|x| x.down.contains(m) || x.flat.contains(m))) {
                Some(m) => {
                    left.retain(|x| !x.down.contains(&m));
                    by.push(m);
                }
                None => break,
            }
        }
        let ok = left.is_empty();
        if std::env::var("SA_EV").is_ok() {
            println!("loop {} at {} ok={} by {:?} left {:?}", name, e.span, ok, by, left.iter().map(|x| (x.down.iter().take(6).cloned().collect::<Vec<_>>(), x.flat.len())).collect::<Vec<_>>());
        }
        if let Some(i) = name.find(":src/") {
            e.span = name[i + 1..].to_string();
        }
        lcheck(e, "C03", "every way round a loop comes nearer to its end", ok, || format!("a way back to the head of the loop {} uses nothing up: no number moves towards a bound, nothing is taken from an iterator or stream, and no excused failure is retried", name));
    }
    fn back(&mut self, e: &mut Engine, head: &State, back: &State, _at: &str) {
        if std::env::var("SA_NOB").is_ok() { return; }
        let d = match self.loops.len() {
            0 => return,
            n => n - 1,
        };
        if self.loops[d].skip {
            return;
        }
        let mut ed = Edge::default();
        let mut st = back.clone();
        ed.used = st.g(&Ends::key(d)) == 1;
        if let Some(V::Int(n)) = st.gv.get(&format!("~n{}", d)).cloned() {
            ed.used |= st.fx.ent_le(&Lin::k(1).sub(&n));
        }
        if let Some(v) = st.gv.get(&format!("~e{}", d)).cloned() {
            // (only a file that is to be made can be there already)
            let excused: &[&str] = if st.g(&format!("~k{}", d)) == 1 { &["Interrupted", "AlreadyExists"] } else { &["Interrupted"] };
            
            ed.used |= kind_in(e, &mut st, &v, excused);
        }
        if !ed.used {
            let mark = self.loops[d].mark;
            let mut nums = vec![];
            numbers(e, head, back, &mut nums);
            let mut still: Vec<(String, Lin)> = vec![];
            let mut moved: Vec<(String, Lin, Lin)> = vec![];
            for (k, x, y) in nums {
                let by = st.fx.norm(&y);
                let dl = st.fx.norm(&by.sub(&st.fx.norm(&x)));
                if dl.is_const() == Some(0) {
                    ed.flat.insert(format!("-{}", k));
                    ed.flat.insert(k.clone());
                    still.push((k, by));
                } else {
                    moved.push((k, by, dl));
                }
            }
            let le = st.fx.le.clone();
            let old = |l: &Lin| l.m.iter().all(|(t, _)| newest(*t) <= mark);
            let mut ups = vec![];
            for (k, y, dl) in &moved {
                let (lo, hi) = st.fx.bounds(dl);
                let down = hi.map_or(false, |x| x <= -1) || st.fx.ent_le(&dl.addc(1));
                let up = lo.map_or(false, |x| x >= 1) || st.fx.ent_le(&Lin::k(1).sub(dl));
                if down && (st.fx.bounds(y).0.is_some()) {
                    ed.down.insert(k.clone());
                } else if !up && (hi.map_or(false, |x| x <= 0) || st.fx.ent_le(dl)) {
                    ed.flat.insert(k.clone());
                }
                let flat_up = up || lo.map_or(false, |x| x >= 0) || st.fx.ent_le(&dl.neg());
                if flat_up {
                    // a fixed bound: a small number, or something known before the loop
                    let near = st.fx.bounds(y).1.map_or(false, |x| x <= NEAR) || le.iter().any(|l| { let t = y.sub(l); old(&t) && t.m.len() <= 3 && (t.m.len() > 0 || t.c <= NEAR) && t.c.abs() <= NEAR });
                    if up && near {
                        ed.down.insert(format!("-{}", k));
                    } else if !up {
                        ed.flat.insert(format!("-{}", k));
                    }
                }
                if flat_up {
                    ups.push((k.clone(), y.clone(), up));
                }
            }
            // one number moving towards another
            for (k, y, up) in &ups {
                for (l, z, still) in still.iter().map(|x| (&x.0, &x.1, true)).chain(moved.iter().map(|x| (&x.0, &x.1, false))) {
                    if l == k {
                        continue;
                    }
                    let gap = st.fx.norm(&z.sub(y));
                    let name = format!("{}-{}", l, k);
                    let (mut dn, mut fl) = (*up && still, !*up && still);
                    if !still {
                        let m = moved.iter().find(|x| &x.0 == l).unwrap();
                        let c = st.fx.norm(&m.2.sub(&moved.iter().find(|x| &x.0 == k).unwrap().2));
                        dn = st.fx.ent_le(&c.addc(1));
                        fl = !dn && st.fx.ent_le(&c);
                    }
                    if dn && (st.fx.ent_le(&gap.neg().addc(-1))) {
                        ed.down.insert(name);
                    } else if dn || fl {
                        ed.flat.insert(name);
                    }
                }
            }
        }
        if !ed.used && ed.down.is_empty() && std::env::var("SA_K").is_ok() {
            let mut nums = vec![];
            numbers(e, head, back, &mut nums);
            println!("EDGE {}", _at);
            for (k, x, y) in &nums {
                println!("   {} {} -> {}", k, showl(x), showl(y));
            }
            println!("   err {:?} n {:?} facts {}", st.gv.get(&format!("~e{}", d)), st.gv.get(&format!("~n{}", d)), st.fx.show());
        }
        self.loops[d].edges.push(ed);
    }
    fn enter(&mut self, e: &mut Engine, st: &mut State, f: FnId, args: &[V]) {
        if self.watched.is_empty() || !self.watched.contains(&e.prog.fns[f].path) {
            return;
        }
        let p = e.prog.fns[f].path.clone();
        for (i, v) in args.iter().enumerate() {
            if let Some(n) = size_of(e, st, v) {
                st.set_gv(&format!("~a{}:{}", p, i), V::Int(n));
            }
        }
    }
    fn ret(&mut self, _e: &mut Engine, st: &mut State, _f: FnId, _v: &V) {
        for d in self.inner().map_or(0, |d| d + 1)..self.loops.len() + 4 {
            self.clear(st, d);
        }
    }
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        match ev.what {
            "dir_entry" => {
                let t = crate::comp5::main_term(e, st, &ev.v[1]);
                self.progress(e, st, t);
            }
            "map_value" => {
                let t = crate::comp5::main_term(e, st, &ev.v[0]);
                self.progress(e, st, t);
            }
            "ok" if ev.s == "read" && !self.loops.is_empty() => {
                if let Some(d) = self.inner() {
                    st.set_gv(&format!("~n{}", d), ev.v[0].clone());
                }
            }
            "err" if !self.loops.is_empty() => {
                // the name was taken: another one is tried, with a number that was not used before
                if std::env::var("SA_K").is_ok() && ev.s.starts_with("open") {
                    let t = e.content(st, &ev.v[1]);
                    println!("ERR {} {} mark {:?}", ev.s, show(t), self.inner().map(|d| self.loops[d].mark));
                }
                let made = ev.s.starts_with("open:") && ev.v.len() > 1 && {
                    let t = e.content(st, &ev.v[1]);
                    let mark = self.inner().map_or(0, |d| self.loops[d].mark);
                    deep(t).iter().any(|x| matches!(kind(*x), K::Fresh(n, h) if n as u64 > mark && h.starts_with("fetch_")))
                };
                if let Some(d) = self.inner() {
                    st.set_gv(&format!("~e{}", d), ev.v[0].clone());
                    st.set_g(&format!("~k{}", d), made as i64);
                }
            }
            "recurse" => {
                let args = ev.v.clone();
                let mut ok = args.iter().any(|v| crate::comp5::real_directory(e, st, v));
                if !ok {
                    // a number handed down that gets smaller and does not pass below a bound
                    let f = e.prog.fns.iter().position(|x| x.path == ev.s);
                    let mut told = false;
                    for (i, v) in args.iter().enumerate() {
                        let now = match size_of(e, st, v) {
                            Some(n) => n,
                            None => continue,
                        };
                        if let Some(V::Int(was)) = st.gv.get(&format!("~a{}:{}", ev.s, i)).cloned() {
                            told = true;
                            let d = st.fx.norm(&now.sub(&was));
                            ok |= st.fx.ent_le(&d.addc(1)) && st.fx.bounds(&now).0.is_some();
                            ok |= st.fx.ent_le(&Lin::k(1).sub(&d)) && st.fx.bounds(&now).1.map_or(false, |x| x <= NEAR);
                        }
                    }
                    if !ok && !told && f.is_some() && !e.again {
                        // looked at again with the arguments remembered
                        e.again = true;
                        self.watched.insert(ev.s.clone());
                        return;
                    }
                }
                lcheck(e, "C03", "a function calls itself only for a part of what it was given", ok, || format!("`{}` can call itself without end", ev.s));
            }
            _ => {}
        }
    }
}
pub fn mons() -> Box<dyn Mon> {
    Box::new(Ends::default())
}

// ---------------------------------------------------------------- C02
pub struct Room;
const SPARE: i128 = 1 << 20;
/// The lengths of the sequences there are.
fn lengths(e: &mut Engine, st: &State) -> Vec<Lin> {
    fn go(v: &V, depth: u32, out: &mut Vec<Lin>) {
        if depth > 6 {
            return;
        }
        match v {
            V::Seq(q) => out.push(q.len.clone()),
            V::Slice(s) => out.push(s.len.clone()),
            V::Adt(a) => a.f.iter().for_each(|x| go(x, depth + 1, out)),
            _ => {}
        }
    }
    let _ = e;
    let mut out = vec![];
    for f in st.fr.iter() {
        f.iter().for_each(|v| go(v, 0, &mut out));
    }
    st.heap.values().for_each(|v| go(v, 0, &mut out));
    let mut ls: Vec<Lin> = vec![];
    for l in out {
        let l = st.fx.norm(&l);
        if l.is_const().is_none() && !ls.contains(&l) {
            ls.push(l);
        }
    }
    ls
}
impl Mon for Room {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        if ev.what != "alloc" {
            return;
        }
        let (n, held) = match (&ev.v[0], &ev.v[1]) {
            (V::Int(n), V::Int(h)) => (st.fx.norm(n), st.fx.norm(h)),
            _ => return,
        };
        let small = |l: &Lin| st.fx.bounds(l).1.map_or(false, |x| x <= SPARE) || st.fx.ent_le(&l.addc(-SPARE));
        let mut ok = small(&n) || small(&n.sub(&held));
        if !ok {
            // what is left when the lengths of data are taken away
            let mut d = n.clone();
            for (t, k) in n.m.iter() {
                if *k > 0 && *k <= 16 && is_app(*t, "len").is_some() {
                    d = d.sub(&Lin::atom(*t).scale(*k));
                }
            }
            ok = small(&d);
        }
        if !ok {
            ok = lengths(e, st).into_iter().any(|l| small(&n.sub(&l.scale(2))));
        }
        let what = ev.s.rsplit("::").next().unwrap_or("").to_string();
        lcheck(e, "C02", &format!("the room asked for by {} is bounded by the data there is", what), ok, || format!("room for {} is asked for, which no data held bounds", showl(&n)));
    }
}
pub fn room() -> Box<dyn Mon> {
    Box::new(Room)
}
