// Contracts of ids and of the values parsed from objects and references.
use crate::checks::*;
use crate::comp::*;
use crate::comp2::*;
use crate::comp3::*;
use crate::exec::*;
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

pub const ID: &str = "object::Id";
pub const SHORT: &str = "object::ShortId";
fn bare(s: &str) -> &str {
    s.trim_start_matches('&').trim_start_matches("'_ ")
}
/// The crate's functions with a signature.
pub fn by_sig(p: &Prog, f: &dyn Fn(&Prog, &[Ty], Ty) -> bool) -> Vec<FnId> {
    (0..p.fns.len())
        .filter(|i| match &p.fns[*i].body {
            Some(b) => !p.fns[*i].inst.contains("{closure") && f(p, &b.locals[1..=b.argc], b.locals[0]),
            None => false,
        })
        .collect()
}
/// The bytes of an id or a short id.
pub fn id_bytes(e: &mut Engine, st: &mut State, v: &V, ty: Ty) -> Option<(T, Lin)> {
    let name = bare(e.prog.ts(ty)).to_string();
    let v = e.mem.deref_all(st, v);
    let ps = parts(e, st, &v);
    let arr = ps.iter().find(|(_, t)| e.prog.ts(*t) == "[u8; 20]").map(|x| x.0.clone())?;
    let s = e.sl(st, &arr);
    let c = e.mem.slice_content(st, &s);
    if name == ID {
        return Some((c, Lin::k(20)));
    }
    let n = ps.iter().find(|(_, t)| matches!(e.prog.k(*t), TK::Int { .. })).map(|x| x.0.clone())?;
    let n = e.as_int(&n);
    let n = st.fx.norm(&n);
    if n.is_const() == Some(20) {
        return Some((c, n));
    }
    Some((sl(c, &Lin::k(0), &n), n))
}
pub fn txt(e: &mut Engine, st: &mut State, v: &V) -> Option<(T, Lin)> {
    let s = e.mem.as_slice(st, v)?;
    Some((e.mem.slice_content(st, &s), s.len.clone()))
}
pub fn eq_fact(st: &State, f: &F) -> bool {
    st.fx.implies(f)
}
/// The order of two byte sequences the state has established.
fn ordered(st: &State, a: T, b: T) -> Option<i128> {
    for k in [-1, 0, 1] {
        let ab = Lin::atom(ranged(app("cmpseq", vec![a, b]), (-1, 1)));
        let ba = Lin::atom(ranged(app("cmpseq", vec![b, a]), (-1, 1)));
        if eq_fact(st, &F::eq(&ab, &Lin::k(k))) || eq_fact(st, &F::eq(&ba, &Lin::k(-k))) {
            return Some(k);
        }
    }
    None
}
fn is_id(p: &Prog, t: Ty, want: &str) -> bool {
    bare(p.ts(t)) == want
}
/// Counts what is printed and checks it.
struct Prints {
    of: Rc<std::cell::RefCell<Option<(T, Lin)>>>,
}
impl Mon for Prints {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        let n = st.gh.get("printed").copied().unwrap_or(0);
        match ev.what {
            "printed" => {
                let ok = match (txt(e, st, &ev.v[0]), &*self.of.borrow()) {
                    (Some((c, _)), Some((b, _))) => is_app(c, "hexenc").map_or(false, |x| x[0] == *b),
                    _ => false,
                };
                Rc::make_mut(&mut st.gh).insert("printed".into(), if ok && n == 0 { 1 } else { 2 });
            }
            "printed_other" => {
                Rc::make_mut(&mut st.gh).insert("printed".into(), 2);
            }
            _ => {}
        }
    }
}
pub fn c21(prog: &Rc<Prog>, r: &mut Report) {
    let mut obs: Vec<(String, bool, String)> = vec![];
    let one = |p: &Prog, a: &[Ty]| a.len() == 1 && (is_id(p, a[0], ID) || is_id(p, a[0], SHORT));
    let text = |p: &Prog, t: Ty| matches!(p.ts(t), "&[u8]" | "&str");
    // digits to ids
    let fns = by_sig(prog, &|p, a, ret| a.len() == 1 && text(p, a[0]) && (ok_is(p, ret, ID) || ok_is(p, ret, SHORT)));
    let mut e = engine(prog);
    e.join_at = 4096;
    e.merge_at = 1 << 20;
    functions(&mut e, r, &fns, &mut |_, _, _| {}, &mut |e, st, path, args, out| {
        let mut add = |rule: &str, ok: bool, why: String| obs.push((format!("C21:{}:{}", path, rule), ok, why));
        let (c, n) = match txt(e, st, &args[0]) {
            Some(x) => x,
            None => return add("digits are read from the argument", false, show_v(&args[0])),
        };
        let okt = app("hexok", vec![c]);
        let (ret, _) = ok_types(&e.prog, e.root_ty);
        let short = is_id(&e.prog, ret, SHORT);
        match ok_of(out) {
            Some(id) => {
                add("only hexadecimal digits are accepted", eq_fact(st, &F::eq(&lt(okt), &Lin::k(1))), st.fx.show());
                let lens = if short { F::and(&F::le(&Lin::k(4), &n), &F::le(&n, &Lin::k(40))) } else { F::eq(&n, &Lin::k(40)) };
                add("only the right number of digits is accepted", eq_fact(st, &lens), format!("length {}", showl(&st.fx.norm(&n))));
                let b = id_bytes(e, st, &id, ret);
                let want = app("hexdec", vec![c]);
                add(
                    "the bytes are those the digits spell",
                    b.as_ref().map_or(false, |(b, m)| *b == want && same(st, &m.scale(2), &n)),
                    b.map(|b| format!("{} of length {}", show(b.0), showl(&b.1))).unwrap_or("unknown".into()),
                );
                if short {
                    // the bytes that are not part of the id are equal in equal ids
                    let ps = parts(e, st, &id);
                    let arr = ps.iter().find(|(_, t)| e.prog.ts(*t) == "[u8; 20]").map(|x| x.0.clone());
                    let z = arr.and_then(|a| txt(e, st, &a)).map_or(false, |(a, _)| match kind(a) {
                        K::App("splice", x) => lit_of(x[0]).map_or(false, |b| b.iter().all(|b| *b == 0)),
                        _ => a == want,
                    });
                    add("unused bytes are zero", z, "equal short ids may compare as different".into());
                }
            }
            None => {
                // no right argument is refused
                let mut s = st.clone();
                let half = mk("half", vec![tl(&n)], Some((0, 1 << 62)));
                let lens = if short { F::and(&F::le(&Lin::k(4), &n), &F::le(&n, &Lin::k(40))) } else { F::eq(&n, &Lin::k(40)) };
                let ok = !s.assume(&lens) || !s.assume(&F::eq(&lt(okt), &Lin::k(1))) || !s.assume(&F::eq(&n, &lt(half).scale(2))) || s.fx.bot;
                add("only wrong text is refused", ok, st.fx.show());
            }
        }
    });
    // ids to digits
    let fns = by_sig(prog, &|p, a, ret| one(p, a) && p.ts(ret) == "std::string::String");
    functions(&mut e, r, &fns, &mut |_, _, _| {}, &mut |e, st, path, args, out| {
        let aty = e.prog.fns.iter().find(|f| f.inst == e.root).unwrap().body.as_ref().unwrap().locals[1];
        let b = id_bytes(e, st, &args[0], aty);
        let o = txt(e, st, out);
        let ok = match (&b, &o) {
            (Some((b, _)), Some((o, _))) => is_app(*o, "hexenc").map_or(false, |x| x[0] == *b),
            _ => false,
        };
        obs.push((format!("C21:{}:prints the digits of its bytes in lower case", path), ok, format!("{:?}", o.map(|o| show(o.0)))));
    });
    // printing
    let fns = by_sig(prog, &|p, a, _| a.len() == 2 && (is_id(p, a[0], ID) || is_id(p, a[0], SHORT)) && p.ts(a[1]).contains("std::fmt::Formatter"));
    let of = Rc::new(std::cell::RefCell::new(None));
    let mut e2 = engine(prog);
    e2.join_at = 4096;
    e2.mon = Some(Box::new(Prints { of: of.clone() }));
    functions(
        &mut e2,
        r,
        &fns,
        &mut |e, st, args| {
            let aty = e.prog.fns.iter().find(|f| f.inst == e.root).unwrap().body.as_ref().unwrap().locals[1];
            *of.borrow_mut() = id_bytes(e, st, &args[0], aty);
        },
        &mut |_, st, path, _, _| {
            let n = st.gh.get("printed").copied().unwrap_or(0);
            obs.push((format!("C21:{}:writes exactly its digits", path), n == 1, "something else is written".into()));
        },
    );
    // comparisons
    let idish = |p: &Prog, t: Ty| p.ts(t).starts_with('&') && (is_id(p, t, ID) || is_id(p, t, SHORT));
    let fns = by_sig(prog, &|p, a, ret| a.len() == 2 && idish(p, a[0]) && idish(p, a[1]) && (p.ts(ret) == "std::cmp::Ordering" || p.ts(ret) == "bool"));
    functions(&mut e, r, &fns, &mut |_, _, _| {}, &mut |e, st, path, args, out| {
        let body = e.prog.fns.iter().find(|f| f.inst == e.root).unwrap().body.clone().unwrap();
        let (ta, tb) = (body.locals[1], body.locals[2]);
        let (sa, sb) = (is_id(&e.prog, ta, SHORT), is_id(&e.prog, tb, SHORT));
        let (x, y) = match (id_bytes(e, st, &args[0], ta), id_bytes(e, st, &args[1], tb)) {
            (Some(x), Some(y)) => (x, y),
            _ => return obs.push((format!("C21:{}:compares ids", path), false, "no bytes".into())),
        };
        let mut add = |rule: &str, ok: bool, why: String| obs.push((format!("C21:{}:{}", path, rule), ok, why));
        if e.prog.ts(e.root_ty) == "bool" {
            let b = match out {
                V::Bool(F::T) => true,
                V::Bool(F::F) => false,
                _ => return add("the result is decided by the bytes", false, show_v(out)),
            };
            if sa != sb {
                // short prefix of long
                let (s, l) = if sa { (&x, &y) } else { (&y, &x) };
                let head = sl(l.0, &Lin::k(0), &s.1);
                let v = Lin::k(b as i128);
                let ok = [app("sw", vec![l.0, s.0]), app("eqs", vec![head, s.0]), app("eqs", vec![s.0, head])].iter().any(|t| eq_fact(st, &F::eq(&lt(*t), &v)))
                    || ordered(st, head, s.0).map_or(false, |k| (k == 0) == b);
                add("a prefix matches exactly when all of its bytes agree", ok, format!("{} when {}", b, st.fx.show()));
            } else {
                let ne = path.ends_with("::ne");
                let v = Lin::k((b != ne) as i128);
                let ok = [app("eqs", vec![x.0, y.0]), app("eqs", vec![y.0, x.0])].iter().any(|t| eq_fact(st, &F::eq(&lt(*t), &v))) || ordered(st, x.0, y.0).map_or(false, |k| (k == 0) == (b != ne));
                if !sa {
                    add("ids are equal exactly when their bytes are", ok, format!("{} when {}", b, st.fx.show()));
                }
            }
            return;
        }
        if sa && sb {
            return;
        }
        let got = match out {
            V::Adt(a) => a.var as i128 - 1,
            _ => return add("the order is decided by the bytes", false, show_v(out)),
        };
        let mut ok = ordered(st, x.0, y.0) == Some(got);
        if !ok && sa != sb {
            // by the common bytes first, then the shorter one first
            let (s, l, g) = if sa { (&x, &y, got) } else { (&y, &x, -got) };
            let head = sl(l.0, &Lin::k(0), &s.1);
            let all = |c: T| sl(c, &Lin::k(0), &Lin::k(20));
            let k = ordered(st, s.0, head).or(ordered(st, all(s.0), all(l.0)));
            let full = eq_fact(st, &F::eq(&s.1, &Lin::k(20)));
            let less = eq_fact(st, &F::lt(&s.1, &Lin::k(20)));
            ok = match k {
                Some(0) => (full && g == 0) || (less && g == -1),
                Some(k) => k == g,
                None => false,
            };
        }
        add("the order is that of the bytes, a prefix before what it starts", ok, format!("order {} when {}", got, st.fx.show()));
    });
    // conversions
    let fns = by_sig(prog, &|p, a, ret| a.len() == 1 && is_id(p, a[0], ID) && p.ts(ret) == SHORT);
    functions(&mut e, r, &fns, &mut |_, _, _| {}, &mut |e, st, path, args, out| {
        let body = e.prog.fns.iter().find(|f| f.inst == e.root).unwrap().body.clone().unwrap();
        let (a, b) = (id_bytes(e, st, &args[0], body.locals[1]), id_bytes(e, st, out, e.root_ty));
        let ok = matches!((&a, &b), (Some(a), Some(b)) if a.0 == b.0 && b.1.is_const() == Some(20));
        obs.push((format!("C21:{}:an id is the short id of all of its digits", path), ok, format!("{:?}", b.map(|b| show(b.0)))));
    });
    let fns = by_sig(prog, &|p, a, ret| a.len() == 1 && p.ts(a[0]) == "&[u8]" && p.ts(ret) == ID);
    functions(&mut e, r, &fns, &mut |_, _, _| {}, &mut |e, st, path, args, out| {
        let (a, b) = (txt(e, st, &args[0]), id_bytes(e, st, out, e.root_ty));
        let ok = match (&a, &b) {
            (Some(a), Some(b)) => b.0 == a.0 || sl(a.0, &Lin::k(0), &Lin::k(20)) == b.0 || show(b.0) == format!("bytes_of(sha_final(sha(sha_new(),{})))", show(a.0)),
            _ => false,
        };
        obs.push((format!("C21:{}:an id is made of the bytes it is given", path), ok, format!("{:?}", b.map(|b| show(b.0)))));
    });
    for (k, ok, why) in obs {
        r.add(&k, ok, "src/object.rs", &why);
    }
    r.functions += e.analysed.len() + e2.analysed.len();
    r.exhausted |= e.exhausted || e2.exhausted;
}
fn ok_types(p: &Prog, t: Ty) -> (Ty, Ty) {
    match p.k(t) {
        TK::Adt { args, .. } if args.len() >= 2 => (args[0], args[1]),
        TK::Adt { args, .. } if args.len() == 1 => (args[0], args[0]),
        _ => (t, t),
    }
}
// ---------------------------------------------------------------- C16
/// Every object a parser returns, with the accessors called on it.
fn accessed(e: &mut Engine, r: &mut Report, types: &[&str], pre: &mut dyn FnMut(&mut Engine, &mut State, &V), f: &mut dyn FnMut(&mut Engine, &State, &mut State, &V, &str, &V)) {
    let prog = e.prog.clone();
    for ty in types {
        let fns = by_sig(&prog, &|p, a, ret| a.len() == 1 && ok_is(p, ret, ty) && p.ts(a[0]).contains("parse::parser::Parser<"));
        let want = format!("&{}", ty);
        let acc: Vec<(FnId, String)> = prog
            .roots
            .iter()
            .filter(|x| !x.generic && !x.path.contains("fmt::") && !x.path.contains("Clone"))
            .filter(|x| prog.fns[x.inst].body.as_ref().map_or(false, |b| b.argc == 1 && peel_name(&prog, b.locals[1]) == want))
            .map(|x| (x.inst, x.path.clone()))
            .collect();
        let mut outs: Vec<(State, Vec<V>, V)> = vec![];
        functions(e, r, &fns, &mut |e, st, a| pre(e, st, &a[0]), &mut |_, st, _, args, out| {
            if ok_of(out).is_some() {
                outs.push((st.clone(), args.to_vec(), out.clone()));
            }
        });
        for (st, args, out) in outs {
            let v = ok_of(&out).unwrap();
            let vty = match &v {
                V::Adt(a) => a.ty,
                _ => continue,
            };
            for (a, path) in &acc {
                let mut s = st.clone();
                let rf = e.cell(&mut s, v.clone(), vty);
                e.root = path.clone();
                e.root_ty = prog.fns[*a].body.as_ref().unwrap().locals[0];
                for (mut z, o) in e.exec_fn(s, *a, vec![rf]) {
                    if !z.fx.bot {
                        f(e, &st, &mut z, &args[0], path, &o);
                    }
                }
            }
        }
    }
}
pub fn peel_name(p: &Prog, t: Ty) -> String {
    p.ts(t).split('<').next().unwrap_or("").to_string()
}

pub fn is_at(st: &State, c: T, q: &Lin, b: u8) -> bool {
    word_at(st, c, q, &[b])
}
/// Is this place the start of a line?
fn line_start(st: &State, c: T, q: &Lin, begin: &Lin) -> bool {
    same(st, q, begin) || is_at(st, c, &q.addc(-1), b'\n')
}
/// Is the place directly after this word, which starts a line?
fn after(st: &State, c: T, q: &Lin, word: &str, begin: &Lin) -> bool {
    let w = q.addc(-(word.len() as i128));
    word_at(st, c, &w, word.as_bytes()) && line_start(st, c, &w, begin)
}
/// Is there a line end after that many bytes?
fn ends(st: &State, c: T, q: &Lin, n: &Lin) -> bool {
    is_at(st, c, &q.add(n), b'\n')
}
/// The place in the content some bytes come from.
fn place(e: &Engine, st: &State, c: T, x: T) -> Option<(Lin, Option<Lin>)> {
    let o = origin(&e.prog, x);
    if o.base == c {
        return Some((st.fx.norm(&o.off), o.len));
    }
    None
}
struct C16 {
    from: Rc<std::cell::RefCell<Option<(T, Lin)>>>,
    obs: Rc<std::cell::RefCell<Vec<(String, bool, String)>>>,
}
/// Every scalar and range inside a value, by type.
fn leaves(e: &mut Engine, st: &mut State, v: &V, out: &mut Vec<(String, V)>, d: u32) {
    if d > 4 {
        return;
    }
    for (x, t) in parts(e, st, v) {
        let n = e.prog.ts(t).to_string();
        if matches!(e.prog.k(t), TK::Int { .. }) || n == "std::ops::Range<usize>" {
            out.push((n, x));
        } else if matches!(e.prog.k(t), TK::Adt { is_enum: false, .. }) {
            leaves(e, st, &x, out, d + 1);
        }
    }
}
/// mode, name and id place of a tree entry
fn entry(e: &mut Engine, st: &mut State, v: &V) -> Option<(Lin, Lin, Lin, Option<Lin>)> {
    let mut l = vec![];
    leaves(e, st, v, &mut l, 0);
    let rg = l.iter().find(|x| x.0.starts_with("std::ops::Range")).map(|x| x.1.clone())?;
    let p = parts(e, st, &rg);
    let (a, b) = (e.as_int(&p.first()?.0), e.as_int(&p.get(1)?.0));
    let mode = l.iter().find(|x| !x.0.starts_with("std::ops::Range") && x.0 != "usize").map(|x| x.1.clone())?;
    let id = l.iter().find(|x| x.0 == "usize").map(|x| x.1.clone());
    let id = match id {
        Some(i) => Some(e.as_int(&i)),
        None => None,
    };
    Some((e.as_int(&mode), a, b, id))
}
fn add_obs(o: &Rc<std::cell::RefCell<Vec<(String, bool, String)>>>, k: String, ok: bool, why: String) {
    o.borrow_mut().push((format!("C16:{}", k), ok, why));
}
impl Mon for C16 {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        let (c, begin) = match &*self.from.borrow() {
            Some(x) => x.clone(),
            None => return,
        };
        match ev.what {
            "starts" => {
                let (h, w) = (e.content(st, &ev.v[0]), e.content(st, &ev.v[1]));
                if let (Some((q, _)), Some(b)) = (place(e, st, c, h), lit_of(w)) {
                    if line_start(st, c, &q, &begin) {
                        if &b[..] == b"parent " {
                            let pending = st.gv.contains_key("parent");
                            add_obs(&self.obs, "commit:each parent line gives one parent".into(), !pending, "a parent line is dropped".into());
                            st.set_gv("parent", V::Int(q.addc(7)));
                        }
                        let k = format!("line:{}", String::from_utf8_lossy(&b));
                        if !st.gv.contains_key(&k) {
                            st.set_gv(&k, V::Int(q.addc(b.len() as i128)));
                        }
                    }
                }
            }
            "reorder" => add_obs(&self.obs, "what was parsed is kept in order".into(), false, format!("{} in {}", ev.s, e.root)),
            "push" | "collected" => {
                let v = if ev.what == "push" { &ev.v[1] } else { &ev.v[0] };
                if let V::Int(l) = v {
                    if e.root.contains("commit") {
                        let want = match st.gv.get("parent") {
                            Some(V::Int(w)) => Some(w.clone()),
                            _ => None,
                        };
                        let ok = want.map_or(false, |w| same(st, &w, l)) && after(st, c, l, "parent ", &begin);
                        add_obs(&self.obs, "commit:what is kept of a parent is the place of its id".into(), ok, showl(&st.fx.norm(l)));
                        Rc::make_mut(&mut st.gv).remove("parent");
                    }
                    return;
                }
                if !matches!(v, V::Adt(_)) {
                    return;
                }
                let (mode, a, b, id) = match entry(e, st, v) {
                    Some(x) => x,
                    None => return,
                };
                let end = match st.gv.get("entry_end") {
                    Some(V::Int(l)) => l.clone(),
                    _ => begin.clone(),
                };
                // the mode is read up to the space in front of the name
                let m = st.fx.norm(&mode);
                let mut okm = false;
                for l in [&m, &mode] {
                    if let (0, [(t, 1)]) = (l.c, &l.m[..]) {
                        if let K::App("parse", x) = kind(*t) {
                            if let Some((q, Some(n))) = place(e, st, c, x[0]) {
                                okm |= lt(x[1]).is_const() == Some(8) && same(st, &q, &end) && is_at(st, c, &q.add(&n), b' ') && same(st, &q.add(&n).addc(1), &a) && first(e, st, c, &q, &n, 32);
                            }
                        }
                    }
                }
                add_obs(&self.obs, "tree:the mode is the octal number before the space".into(), okm, showl(&m));
                let n = st.fx.norm(&b.sub(&a));
                let okn = is_at(st, c, &b, 0) && first(e, st, c, &a, &n, 0);
                add_obs(&self.obs, "tree:the name ends at the first NUL".into(), okn, showl(&n));
                if let Some(i) = &id {
                    add_obs(&self.obs, "tree:the id follows the NUL".into(), same(st, i, &b.addc(1)), showl(&st.fx.norm(&i.sub(&b))));
                }
                let nl = st.fx.norm(&b.addc(21));
                st.set_gv("entry_end", V::Int(nl));
            }
            _ => {}
        }
    }
}
/// Is this length the distance to the first such byte?
fn first(e: &Engine, st: &State, c: T, q: &Lin, n: &Lin, b: i128) -> bool {
    let n = st.fx.norm(n);
    if let (0, [(t, 1)]) = (n.c, &n.m[..]) {
        if let K::App(f, x) = kind(*t) {
            if (f == "memchr" || f == "position") && lt(x[0]).is_const() == Some(b) {
                return place(e, st, c, x[1]).map_or(false, |(o, _)| same(st, &o, q));
            }
        }
    }
    false
}
/// Adaptors that keep every item, in order.
fn in_order(p: &Prog, t: Ty) -> bool {
    let s = p.ts(t);
    !["Rev<", "Skip", "Take", "StepBy", "Filter", "Chain", "Peek", "FlatMap", "Flatten", "Cycle", "Dedup"].iter().any(|x| s.contains(&format!("iter::{}", x)) || s.contains(&format!("adapters::{}", x)))
}
pub fn c16(prog: &Rc<Prog>, r: &mut Report) {
    let from = Rc::new(std::cell::RefCell::new(None));
    let obs = Rc::new(std::cell::RefCell::new(vec![]));
    let mut e = engine(prog);
    e.join_at = 4096;
    e.merge_at = 1 << 20;
    e.mon = Some(Box::new(C16 { from: from.clone(), obs: obs.clone() }));
    let f2 = from.clone();
    accessed(
        &mut e,
        r,
        &["object::commit::Commit", "object::tag::Tag", "object::tree::Tree"],
        &mut |e, st, p| *f2.borrow_mut() = parser_of(e, st, p).map(|x| (x.0, x.1)),
        &mut |e, _, st, p, path, o| {
            let (c, begin, len) = match parser_of(e, st, p) {
                Some(x) => x,
                None => return,
            };
            let name = path.rsplit("::").next().unwrap_or("").to_string();
            let commit = path.contains("::commit::");
            let mut add = |rule: &str, ok: bool, why: String| add_obs(&obs, format!("{}:{}", path, rule), ok, why);
            if commit && name == "parents" {
                add("every parent line is kept", !st.gv.contains_key("parent"), "a parent line is dropped".into());
            }
            let ret = e.root_ty;
            let opt = e.prog.adt_path(ret) == "std::option::Option";
            let (v, none) = match o {
                V::Adt(a) if opt && a.var == 1 => (a.f[0].clone(), false),
                V::Adt(a) if opt && a.var == 0 => (V::Undef, true),
                _ => (o.clone(), false),
            };
            let word = match name.as_str() {
                "tree" | "author" | "committer" | "encoding" | "object" | "tag" | "tagger" => format!("{} ", name),
                "parents" => "parent ".to_string(),
                "message" => "\n".to_string(),
                _ => String::new(),
            };
            if none {
                let seen = st.gv.contains_key(&format!("line:{}", word));
                add("nothing is returned only when there is no such line", !seen, "a line was read and is not returned".into());
                return;
            }
            // of several such lines, the first one counts
            let firstl = match st.gv.get(&format!("line:{}", word)) {
                Some(V::Int(l)) => Some(l.clone()),
                _ => None,
            };
            let is_first = |st: &State, q: &Lin| firstl.as_ref().map_or(true, |l| same(st, l, q));
            match name.as_str() {
                "message" => {
                    let x = txt(e, st, &v);
                    let pl = x.as_ref().and_then(|x| place(e, st, c, x.0));
                    let (q, n) = match (&pl, &x) {
                        (Some(p), Some(x)) => (p.0.clone(), x.1.clone()),
                        _ => return add("the message is a part of the object", false, show_v(&v)),
                    };
                    let blank = is_at(st, c, &q.addc(-1), b'\n') && line_start(st, c, &q.addc(-1), &begin);
                    add("the message follows a blank line", blank, showl(&q));
                    if let Some(V::Int(b)) = st.gv.get("line:\n").cloned() {
                        add("the message follows the first blank line", same(st, &b, &q), format!("{} but the line ends at {}", showl(&q), showl(&b)));
                    }
                    add("the message extends to the end", same(st, &q.add(&n), &len), showl(&n));
                }
                "tree" | "object" if e.prog.ts(ret) == ID => {
                    let b = id_bytes(e, st, &v, ret);
                    let ok = b.as_ref().and_then(|b| is_app(b.0, "hexdec")).and_then(|x| place(e, st, c, x[0])).map_or(false, |(q, n)| after(st, c, &q, &word, &begin) && is_first(st, &q) && n.map_or(false, |n| n.is_const() == Some(40)));
                    add(&format!("the id is that of the `{}` line", word.trim()), ok, b.map(|b| show(b.0)).unwrap_or_default());
                }
                "encoding" | "tag" => {
                    let x = txt(e, st, &v);
                    let pl = x.as_ref().and_then(|x| place(e, st, c, x.0));
                    let ok = matches!((&pl, &x), (Some(p), Some(x)) if after(st, c, &p.0, &word, &begin) && ends(st, c, &p.0, &x.1));
                    add(&format!("the text is that of the `{}` line", word.trim()), ok, show_v(&v));
                }
                "author" | "committer" | "tagger" => {
                    let cap = part(e, st, &v, &|p, t| p.adt_path(t).contains("Captures"));
                    let ok = match &cap {
                        Some(V::Opq(t, _)) => is_app(*t, "caps").and_then(|x| place(e, st, c, x[1])).map_or(false, |(q, n)| after(st, c, &q, &word, &begin) && is_first(st, &q) && n.map_or(false, |n| ends(st, c, &q, &n))),
                        _ => false,
                    };
                    add(&format!("the signature is that of the `{}` line", word.trim()), ok, show_v(&v));
                }
                "parents" => {
                    add("every parent is returned, in order", in_order(&e.prog, ret), e.prog.ts(ret).to_string());
                    let prog = e.prog.clone();
                    for (mut z, x) in step(e, st, &v, ret) {
                        let b = id_bytes(e, &mut z, &x, prog.by_s.get(ID).copied().unwrap_or(0));
                        // an element of the places kept when the commit was parsed, or a place known to follow the word
                        let kept = |q: &Lin| matches!((q.c, &q.m[..]), (0, [(t, 1)]) if is_app(*t, "sel").map_or(false, |x| x[0] != c));
                        let ok = b.as_ref().and_then(|b| is_app(b.0, "hexdec")).and_then(|x| place(e, &z, c, x[0])).map_or(false, |(q, n)| (kept(&q) || after(&z, c, &q, &word, &begin)) && n.map_or(false, |n| n.is_const() == Some(40)));
                        add("each id is that of a `parent` line", ok, b.map(|b| show(b.0)).unwrap_or_default());
                    }
                }
                "entries" => {
                    add("every entry is returned, in order", in_order(&e.prog, ret), e.prog.ts(ret).to_string());
                    let end = match st.gv.get("entry_end") {
                        Some(V::Int(l)) => l.clone(),
                        _ => begin.clone(),
                    };
                    add("the entries fill the object", same(st, &end, &len), showl(&end));
                    let prog = e.prog.clone();
                    for (mut z, x) in step(e, st, &v, ret) {
                        let (mode, a, b, id) = match entry(e, &mut z, &x) {
                            Some(x) => x,
                            None => {
                                add("an entry has a mode and a name", false, show_v(&x));
                                continue;
                            }
                        };
                        let ty = match &x {
                            V::Adt(a) => a.ty,
                            _ => continue,
                        };
                        for m in prog.roots.iter().filter(|m| !m.path.contains("fmt::") && prog.fns[m.inst].body.as_ref().map_or(false, |b| b.argc == 1 && peel_name(&prog, b.locals[1]) == "&object::tree::TreeEntry")) {
                            let mut w = z.clone();
                            let rf = e.cell(&mut w, x.clone(), ty);
                            let mty = prog.fns[m.inst].body.as_ref().unwrap().locals[0];
                            for (mut w, o) in e.exec_fn(w, m.inst, vec![rf]) {
                                let (what, ok) = if e.prog.ts(mty) == ID {
                                    let want = id.clone().unwrap_or(b.addc(1));
                                    let got = id_bytes(e, &mut w, &o, mty).and_then(|g| place(e, &w, c, g.0));
                                    ("the id is that of the entry", got.map_or(false, |(q, _)| same(&w, &q, &want)))
                                } else if let V::Int(l) = &o {
                                    ("the mode is that of the entry", same(&w, l, &mode))
                                } else {
                                    let g = txt(e, &mut w, &o);
                                    let pl = g.as_ref().and_then(|g| place(e, &w, c, g.0));
                                    ("the name is that of the entry", matches!((&pl, &g), (Some(p), Some(g)) if same(&w, &p.0, &a) && same(&w, &g.1, &b.sub(&a))))
                                };
                                add(what, ok, show_v(&o));
                            }
                        }
                    }
                }
                _ => {}
            }
        },
    );
    for (k, ok, why) in obs.borrow().iter() {
        r.add(k, *ok, "src/object", why);
    }
    r.functions += e.analysed.len();
    r.exhausted |= e.exhausted;
}
/// What an iterator yields next.
pub fn step(e: &mut Engine, st: &State, it: &V, ty: Ty) -> Vec<(State, V)> {
    let mut s = st.clone();
    let it_ty = match it {
        V::Adt(a) => a.ty,
        _ => ty,
    };
    let rf = e.cell(&mut s, it.clone(), it_ty);
    let p = match rf {
        V::Ref(p) => p,
        _ => return vec![],
    };
    crate::miter::next(e, s, &p, false).into_iter().filter_map(|(z, v)| v.map(|v| (z, v))).filter(|x| !x.0.fx.bot).collect()
}
// ---------------------------------------------------------------- C23
/// What a signature line is: name, address, time and zone, with the bytes git ignores in front.
const SHAPE: &[u8] = b"(?-u)[\\x00-\\x20.,:;<>\"\\\\']*(.*)[\\x00-\\x20.,:;<>\"\\\\']* <[\\x00-\\x20.,:;<>\"\\\\']*(.*)[\\x00-\\x20.,:;<>\"\\\\']*>(?: (\\d+)(?: ([+\\-]\\d+))?)?";
const ROLES: [(&str, usize); 4] = [("name", 1), ("email", 2), ("timestamp", 3), ("timezone", 4)];
pub fn c23(prog: &Rc<Prog>, r: &mut Report) {
    let mut obs: Vec<(String, bool, String)> = vec![];
    let mut e = engine(prog);
    e.join_at = 4096;
    e.merge_at = 1 << 20;
    let acc: Vec<(FnId, String)> = prog
        .roots
        .iter()
        .filter(|x| !x.path.contains("fmt::") && prog.fns[x.inst].body.as_ref().map_or(false, |b| b.argc == 1 && peel_name(prog, b.locals[1]) == "&object::signature::Signature"))
        .map(|x| (x.inst, x.path.clone()))
        .collect();
    let mut pats: std::collections::BTreeMap<String, std::collections::BTreeMap<usize, usize>> = Default::default();
    accessed(&mut e, r, &["object::commit::Commit", "object::tag::Tag"], &mut |_, _, _| {}, &mut |e, before, st, _p, path, o| {
        let mut add = |k: String, ok: bool, why: String| obs.push((format!("C23:{}", k), ok, why));
        let v = match o {
            V::Adt(a) if e.prog.adt_path(e.root_ty) == "std::option::Option" && a.var == 1 => a.f[0].clone(),
            _ => o.clone(),
        };
        let (sv, sty) = match &v {
            V::Adt(a) if e.prog.adt_path(a.ty) == "object::signature::Signature" => (v.clone(), a.ty),
            _ => return,
        };
        for (m, mp) in &acc {
            let name = mp.rsplit("::").next().unwrap_or("").to_string();
            let role = match ROLES.iter().find(|x| x.0 == name) {
                Some(x) => x.1,
                None => continue,
            };
            let mut s = st.clone();
            let rf = e.cell(&mut s, sv.clone(), sty);
            let mty = prog.fns[*m].body.as_ref().unwrap().locals[0];
            let opt = e.prog.adt_path(mty) == "std::option::Option";
            for (mut z, o) in e.exec_fn(s, *m, vec![rf]) {
                if z.fx.bot {
                    continue;
                }
                let x = match &o {
                    V::Adt(a) if opt && a.var == 1 => a.f[0].clone(),
                    V::Adt(a) if opt && a.var == 0 => {
                        let cap = part(e, &mut z, &sv, &|p, t| p.adt_path(t).contains("Captures"));
                        let k = match &cap {
                            Some(V::Opq(t, _)) => (1..9).find(|k| eq_fact(&z, &F::eq(&lt(app("group_set", vec![*t, tl(&Lin::k(*k))])), &Lin::k(0)))),
                            _ => None,
                        };
                        add(format!("{}:`{}` is absent only when the line has none", mp, name), role > 2 && k.is_some(), "absent although its group may have matched".into());
                        if let (Some(k), Some(p)) = (k, cap.and_then(|c| if let V::Opq(t, _) = c { is_app(t, "caps").and_then(|x| e.regex_of(x[0])) } else { None })) {
                            let old = pats.entry(String::from_utf8_lossy(&p).to_string()).or_default().insert(k as usize, role);
                            add(format!("{}:`{}` is one group of the pattern", mp, name), old.map_or(true, |x| x == role), format!("group {}", k));
                        }
                        continue;
                    }
                    _ => o.clone(),
                };
                let t = txt(e, &mut z, &x);
                let g = t.and_then(|t| is_app(t.0, "matched")).and_then(|x| is_app(x[0], "group")).and_then(|g| is_app(g[0], "caps").map(|c| (c[0], c[1], lt(g[1]).is_const())));
                match g {
                    Some((re, hay, Some(k))) => {
                        let pat = e.regex_of(re);
                        let checked = eq_fact(before, &F::eq(&lt(app("rematch", vec![re, hay])), &Lin::k(1)));
                        add(format!("{}:the line was matched when the object was parsed", path), checked, show(hay));
                        match pat {
                            Some(p) => {
                                let p = String::from_utf8_lossy(&p).to_string();
                                let m = pats.entry(p.clone()).or_default();
                                let old = m.insert(k as usize, role);
                                add(format!("{}:`{}` is one group of the pattern", mp, name), old.map_or(true, |x| x == role), format!("group {}", k));
                            }
                            None => add(format!("{}:the pattern is a constant", mp), false, show(re)),
                        }
                    }
                    _ => add(format!("{}:`{}` is what a group of the pattern matched", mp, name), false, show_v(&x)),
                }
            }
        }
    });
    let want = crate::rx::parse(SHAPE).map(|x| crate::rx::normal(&x, &|k| Some(k)));
    for (p, m) in &pats {
        let got = crate::rx::parse(p.as_bytes()).map(|x| crate::rx::normal(&x, &|k| m.get(&k).copied()));
        obs.push((format!("C23:pattern:signature lines have git's shape"), got.is_some() && got == want, format!("the pattern is {} with groups {:?}", p, m)));
    }
    for (k, ok, why) in obs {
        r.add(&k, ok, "src/object/signature.rs", &why);
    }
    r.functions += e.analysed.len();
    r.exhausted |= e.exhausted;
}
