// Contracts of references: what a reference file means, and what peeling returns.
use crate::checks::*;
use crate::comp::*;
use crate::comp2::*;
use crate::comp3::*;
use crate::comp4::*;
use crate::exec::*;
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::cell::RefCell;
use std::rc::Rc;

const REF: &str = "reference::Reference";
type Obs = Rc<RefCell<Vec<(String, bool, String)>>>;
fn gint(st: &State, k: &str) -> Option<Lin> {
    match st.gv.get(k) {
        Some(V::Int(l)) => Some(st.fx.norm(l)),
        _ => None,
    }
}
fn key(t: T) -> Lin {
    lt(t)
}
fn gcont(st: &State) -> Option<T> {
    match st.gv.get("content") {
        Some(V::Int(l)) => match (l.c, &l.m[..]) {
            (0, [(t, 1)]) => Some(*t),
            _ => None,
        },
        _ => None,
    }
}
/// Follows the lines of a reference file.
struct Lines {
    obs: Obs,
    /// the content when it is known beforehand
    whole: Rc<RefCell<Option<T>>>,
}
fn skippable(st: &State, c: T, q: &Lin) -> bool {
    let t = lt(sel(c, &st.fx.norm(q), Some((0, 255))));
    let one = |b: i128| F::eq(&t, &Lin::k(b));
    eq_fact(st, &F::or(&F::or(&one(10), &one(32)), &one(35)))
}
fn opened(st: &State, c: T, q: &Lin) -> bool {
    let t = lt(sel(c, &st.fx.norm(q), Some((0, 255))));
    [10, 32, 35].iter().all(|b| eq_fact(st, &F::eq(&t, &Lin::k(*b)).not()))
}
impl Lines {
    fn add(&self, e: &Engine, rule: &str, ok: bool, why: String) {
        self.obs.borrow_mut().push((format!("C20:{}:{}", e.root, rule), ok, why));
    }
    fn base(&self, e: &mut Engine, st: &mut State, v: &V) -> Option<(T, Lin, Lin)> {
        let s = e.mem.as_slice(st, v)?;
        let c = e.mem.slice_content(st, &s);
        let o = origin(&e.prog, c);
        Some((o.base, st.fx.norm(&o.off), s.len.clone()))
    }
}
impl Mon for Lines {
    fn normalise(&mut self, _e: &mut Engine, st: &mut State) {
        // what was found out about a line is forgotten when states are joined, but not the verdict
        if let (Some(c), Some(q)) = (gcont(st), gint(st, "line")) {
            let s = skippable(st, c, &q) as i64;
            if s == 1 {
                st.set_gv("skip", V::int(1));
            }
        }
    }
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        let byte = |e: &mut Engine| e.as_int(&ev.v[1]).is_const();
        match ev.what {
            "found" | "absent" => {
                let (c, q, n) = match self.base(e, st, &ev.v[0]) {
                    Some(x) => x,
                    None => return,
                };
                if lit_of(c).is_some() {
                    return;
                }
                let b = byte(e);
                let found = ev.what == "found";
                if b == Some(10) {
                    // the next line
                    let (at, first) = match gint(st, "next") {
                        Some(x) => (x, false),
                        None => (Lin::k(0), true),
                    };
                    if !first {
                        let cur = gint(st, "line").unwrap_or(Lin::k(0));
                        let ok = skippable(st, c, &cur) || gint(st, "skip").and_then(|x| x.is_const()) == Some(1);
                        self.add(e, "only empty lines, comments and indented lines are skipped", ok, format!("a line at {}", showl(&cur)));
                        Rc::make_mut(&mut st.gv).remove("skip");
                    }
                    self.add(e, "lines are read one after the other", same(st, &at, &q), format!("{} after {}", showl(&q), showl(&at)));
                    st.set_gv("content", V::Int(key(c)));
                    st.set_gv("line", V::Int(q.clone()));
                    let end = if found {
                        let i = ev.v.get(2).map(|x| e.as_int(x)).unwrap_or(Lin::k(0));
                        st.fx.norm(&q.add(&i).addc(1))
                    } else {
                        st.fx.norm(&q.add(&n))
                    };
                    st.set_gv("next", V::Int(end));
                    st.set_gv("#total", V::Int(st.fx.norm(&q.add(&n))));
                    for k in ["slash", "space", "nospace", "word", "noword"] {
                        Rc::make_mut(&mut st.gv).remove(k);
                    }
                    return;
                }
                match (b, found) {
                    (Some(47), true) => st.set_gv("slash", V::Int(q)),
                    (Some(32), true) => {
                        if let Some(x) = ev.v.get(2) {
                            let i = e.as_int(x);
                            let l = st.fx.norm(&q.add(&i));
                            st.set_gv("space", V::Int(l));
                            st.set_gv("spacefrom", V::Int(q));
                        }
                    }
                    (Some(32), false) => st.set_gv("nospace", V::Int(q)),
                    _ => {}
                }
            }
            "read_end" => {
                // all of the file or of the bytes given is read, into an empty buffer
                let c = ev.v[1].clone();
                let plain = !["Take<", "Chain<", "StdinLock"].iter().any(|x| ev.s.contains(x));
                let held = e.as_int(&ev.v[2]);
                self.add(e, "the whole file is read", plain && st.fx.norm(&held).is_const() == Some(0), ev.s.clone());
                if let Some(w) = *self.whole.borrow() {
                    let v = e.mem.deref_all(st, &ev.v[0]);
                    let ok = dig(e, st, &v, 0, &mut |e, st, v| match v {
                        V::Slice(_) | V::Seq(_) => Some(e.content(st, v) == w),
                        _ => None,
                    });
                    self.add(e, "the bytes given are read", ok == Some(true), format!("{} {}", ev.s, show_v(&v)));
                }
                st.set_gv("content", c);
            }
            "starts" | "differs" => {
                let w = e.content(st, &ev.v[1]);
                if lit_of(w).map_or(false, |b| &b[..] == b"ref: ") {
                    if let Some((_, q, _)) = self.base(e, st, &ev.v[0]) {
                        st.set_gv(if ev.what == "starts" { "word" } else { "noword" }, V::Int(q));
                    }
                }
            }
            _ => {}
        }
    }
}
/// Searches a value for something.
fn dig<R>(e: &mut Engine, st: &mut State, v: &V, d: u32, f: &mut dyn FnMut(&mut Engine, &mut State, &V) -> Option<R>) -> Option<R> {
    let v = e.mem.deref_all(st, v);
    if let Some(r) = f(e, st, &v) {
        return Some(r);
    }
    if let (V::Adt(a), true) = (&v, d < 6) {
        for x in a.f.iter() {
            if let Some(r) = dig(e, st, x, d + 1, f) {
                return Some(r);
            }
        }
    }
    None
}
fn find_adt(e: &mut Engine, st: &mut State, v: &V, ty: &str) -> Option<V> {
    dig(e, st, v, 0, &mut |e, _, v| match v {
        V::Adt(a) if e.prog.adt_path(a.ty) == ty => Some(v.clone()),
        _ => None,
    })
}
fn text_of(e: &mut Engine, st: &mut State, v: &V, ty: &str) -> Option<(T, Lin)> {
    let v = find_adt(e, st, v, ty)?;
    let b = part(e, st, &v, &|p, t| p.ts(t).starts_with("std::vec::Vec<u8") || p.ts(t).contains("BString"))?;
    txt(e, st, &b)
}
fn id_of(e: &mut Engine, st: &mut State, v: &V) -> Option<T> {
    let id = part(e, st, v, &|p, t| p.adt_path(t) == ID)?;
    let ty = e.prog.by_s.get(ID).copied()?;
    id_bytes(e, st, &id, ty).and_then(|b| is_app(b.0, "hexdec").map(|x| x[0]))
}
pub fn c20(prog: &Rc<Prog>, r: &mut Report) {
    let obs: Obs = Default::default();
    let whole: Rc<RefCell<Option<T>>> = Default::default();
    let mut e = engine(prog);
    e.join_at = 1296;
    e.merge_at = 1 << 20;
    e.mon = Some(Box::new(Lines { obs: obs.clone(), whole: whole.clone() }));
    let fns: Vec<FnId> = prog.roots.iter().filter(|x| !x.generic && prog.fns[x.inst].body.as_ref().map_or(false, |b| ok_is(prog, b.locals[0], REF))).map(|x| x.inst).collect();
    let w2 = whole.clone();
    functions(
        &mut e,
        r,
        &fns,
        &mut |e, st, a| {
            let one = a.len() == 1 && matches!(a[0], V::Slice(_));
            *w2.borrow_mut() = if one { txt(e, st, &a[0]).map(|x| x.0) } else { None };
        },
        &mut |e, st, path, _args, out| {
            let mut add = |rule: &str, ok: bool, why: String| obs.borrow_mut().push((format!("C20:{}:{}", path, rule), ok, why));
            let v = match ok_of(out) {
                Some(v) => v,
                None => {
                    if let (Some(c), Some(q)) = (gcont(st), gint(st, "line")) {
                        let slash = gint(st, "slash").is_some();
                        let plain = gint(st, "space").is_none();
                        if skippable(st, c, &q) || gint(st, "skip").is_some() {
                            // nothing was left to read
                            let n = gint(st, "next").unwrap_or(Lin::k(0));
                            add("a file without a reference is one whose lines are all skipped", gint(st, "#total").map_or(false, |t| same(st, &n, &t)), showl(&n));
                        } else {
                            add("a line with a slash is not refused", !(slash && plain), "an error although the target contains a slash".into());
                            let id = dig(e, st, out, 0, &mut |e, _, v| match v {
                                V::Adt(a) if e.prog.adt_path(a.ty).ends_with("ParseIdError") => Some(()),
                                _ => None,
                            });
                            add("a line is refused for the id it should hold", id.is_some() || skippable(st, c, &q), show_v(out));
                        }
                    }
                    return;
                }
            };
            let line = gint(st, "line");
            let next = gint(st, "next");
            let (line, next) = match (line, next) {
                (Some(a), Some(b)) => (a, b),
                _ => return add("the first meaningful line is looked for", false, "no line end was searched".into()),
            };
            let sym = text_of(e, st, &v, "reference::symbolic::Symbolic");
            let (text, symbolic) = match sym {
                Some(x) => (x.0, true),
                None => match find_adt(e, st, &v, "reference::direct::Direct").and_then(|d| id_of(e, st, &d)) {
                    Some(t) => (t, false),
                    None => return add("a reference holds an id or a target", false, show_v(&v)),
                },
            };
            let o = origin(&e.prog, text);
            let c = o.base;
            add("the text is that of the file", gcont(st) == Some(c), show(c));
            let start = st.fx.norm(&o.off);
            // white space at the end is removed, and nothing else
            let trimmed = match o.len.as_ref().map(|l| st.fx.norm(l)) {
                Some(l) => match (l.c, &l.m[..]) {
                    (0, [(t, 1)]) => is_app(*t, "trimend").map(|x| origin(&e.prog, x[0])),
                    // a length that is known besides
                    _ => st.fx.eq.iter().filter(|x| same(st, x.1, &l)).filter_map(|x| is_app(*x.0, "trimend").map(|x| origin(&e.prog, x[0]))).find(|t| t.base == c && same(st, &st.fx.norm(&t.off), &start)),
                },
                None => None,
            };
            let okt = trimmed.as_ref().map_or(false, |t| {
                let end = t.off.add(&t.len.clone().or(gint(st, "#total")).unwrap_or(lt(len_t(t.base))));
                t.base == c && same(st, &st.fx.norm(&t.off), &start) && (same(st, &end, &next) || same(st, &end.addc(1), &next) && is_at(st, c, &end, b'\n'))
            });
            add("the target extends to the end of the line, without white space", okt, show(text));
            add("the line is the first that is not skipped", opened(st, c, &line), format!("a line at {}", showl(&line)));
            let st0 = st.clone();
            let at = |k: &str, q: &Lin| gint(&st0, k).map_or(false, |x| same(&st0, &x, q));
            let after_ref = line.addc(5);
            let word = at("word", &line);
            let body = if word { after_ref.clone() } else { line.clone() };
            add("`ref: ` is recognised", word || at("noword", &line), format!("at {}", showl(&line)));
            if symbolic {
                let peel = find_adt(e, st, &v, "reference::direct::Direct");
                let sl = gint(st, "slash");
                add("a symbolic reference has a slash", sl.as_ref().map_or(false, |q| same(st, q, &start)), showl(&start));
                match peel {
                    Some(p) => {
                        let t = id_of(e, st, &p);
                        let sp = gint(st, "space");
                        let ok = match (t, sp) {
                            (Some(t), Some(sp)) => {
                                let po = origin(&e.prog, t);
                                po.base == c && same(st, &st.fx.norm(&po.off), &body) && same(st, &sp.addc(1), &start) && at("spacefrom", &body)
                            }
                            _ => false,
                        };
                        add("the peeled id is the word before the target", ok, t.map(show).unwrap_or_default());
                    }
                    None => add("the target follows `ref: ` or starts the line", same(st, &start, &body), format!("{} in the line at {}", showl(&start), showl(&line))),
                }
            } else {
                add("an id is all there is on the line", same(st, &start, &body), format!("{} in the line at {}", showl(&start), showl(&line)));
            }
        },
    );
    let all = obs.borrow().clone();
    for (k, ok, why) in all {
        r.add(&k, ok, "src/reference", &why);
    }
    r.functions += e.analysed.len();
    r.exhausted |= e.exhausted;
    peeling(prog, r);
}

/// Follows what is read while a reference is peeled.
struct Peel {
    obs: Obs,
    refs: std::collections::BTreeSet<String>,
}
fn mentions(t: T, b: T) -> bool {
    t == b
        || match kind(t) {
            K::App(_, x) => x.iter().any(|x| mentions(*x, b)),
            _ => false,
        }
}
/// Is this term a part of a value, whole and unchanged?
fn part_of(t: T, b: T) -> bool {
    t == b
        || match kind(t) {
            K::App(f, x) => matches!(f, "fld" | "deref" | "vfld" | "cast") && !x.is_empty() && part_of(x[0], b),
            _ => false,
        }
}
fn term_of(e: &mut Engine, st: &mut State, v: &V) -> Option<T> {
    match e.mem.deref_all(st, v) {
        V::Opq(t, _) => Some(t),
        _ => None,
    }
}
impl Mon for Peel {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        if ev.what != "cut" {
            return;
        }
        let root = e.root.clone();
        let res = ev.v.last().and_then(|v| if let V::Opq(t, _) = v { Some(*t) } else { None });
        let cur = match st.gv.get("cur") {
            Some(V::Opq(t, _)) => Some(*t),
            _ => None,
        };
        let isref = self.refs.contains(&ev.s);
        let c = if isref {
            txt(e, st, &ev.v[1]).map(|x| x.0)
        } else {
            let ty = e.prog.by_s.get(ID).copied().unwrap_or(0);
            id_bytes(e, st, &ev.v[1], ty).map(|x| x.0)
        };
        let ok = matches!((c, cur), (Some(c), Some(b)) if part_of(c, b));
        let rule = if isref { "the reference that is read is the one the last one names" } else { "the object that is read is the one the last reference names" };
        self.obs.borrow_mut().push((format!("C20:{}:{}", root, rule), ok, format!("{} after {}", c.map(show).unwrap_or_default(), cur.map(show).unwrap_or_default())));
        if let (true, Some(c)) = (isref, c) {
            // the symbolic reference the name is a part of, and the id it may carry
            let ty = e.prog.by_s.get("reference::symbolic::Symbolic").copied();
            let mut x = c;
            let mut seen = None;
            while let (Some(ty), None) = (ty, &seen) {
                if let V::Adt(a) = e.mem.expand(&V::Opq(x, ty), 0) {
                    let is_part = a.f.iter().any(|f| matches!(f, V::Opq(t, _) if part_of(c, *t)) || matches!(f, V::Seq(_)) && e.content(st, f) == c);
                    let peel = a.f.iter().find(|f| matches!(f, V::Opq(_, t) if e.prog.ts(*t).contains("Option<reference::direct::Direct>"))).cloned();
                    if let (true, Some(d)) = (is_part, peel) {
                        let d = e.discr(st, &d);
                        seen = Some(st.implies(&F::eq(&d, &Lin::k(0))));
                        break;
                    }
                }
                x = match kind(x) {
                    K::App("fld" | "deref" | "vfld" | "cast", v) if !v.is_empty() => v[0],
                    _ => break,
                };
            }
            if let Some(ok) = seen {
                self.obs.borrow_mut().push((format!("C20:{}:an id that the line carries is what it peels to", root), ok, "another reference is read although the last one may have named its object".into()));
            }
        }
        if let Some(t) = res {
            st.set_gv(if isref { "cur" } else { "object" }, V::Opq(t, 0));
        }
    }
}
fn peeling(prog: &Rc<Prog>, r: &mut Report) {
    let obs: Obs = Default::default();
    let mut e = engine(prog);
    e.join_at = 1296;
    e.merge_at = 1 << 20;
    e.unroll = 64;
    e.max_steps = 300_000;
    let reads = by_sig(prog, &|p, a, ret| a.len() == 2 && p.ts(a[1]) == "&[u8]" && p.ts(a[0]).ends_with("ReferenceDatabase") && ok_is(p, ret, REF));
    let objs = by_sig(prog, &|p, a, ret| a.len() == 2 && p.ts(a[1]) == ID && p.ts(a[0]).ends_with("object::database::ObjectDatabase") && ok_is(p, ret, "object::Object"));
    e.cuts = reads.iter().chain(objs.iter()).copied().collect();
    e.mon = Some(Box::new(Peel { obs: obs.clone(), refs: reads.iter().map(|f| prog.fns[*f].inst.clone()).collect() }));
    let fns = by_sig(prog, &|p, a, ret| a.len() == 2 && p.ts(a[1]) == "&repository::Repository" && p.ts(a[0]).starts_with("&reference::") && ok_is(p, ret, "object::Object"));
    functions(
        &mut e,
        r,
        &fns,
        &mut |e, st, a| {
            if let V::Ref(_) | V::Opq(..) = &a[0] {
                let v = e.mem.deref_all(st, &a[0]);
                if let Some(t) = whole_term(&v) {
                    st.set_gv("cur", V::Opq(t, 0));
                }
            }
        },
        &mut |e, st, path, _args, out| {
            let mut add = |rule: &str, ok: bool, why: String| obs.borrow_mut().push((format!("C20:{}:{}", path, rule), ok, why));
            if let Some(v) = ok_of(out) {
                let got = term_of(e, st, &v);
                let want = match st.gv.get("object") {
                    Some(V::Opq(t, _)) => Some(*t),
                    _ => None,
                };
                add("peeling returns the object that was read", matches!((got, want), (Some(g), Some(w)) if part_of(g, w)), show_v(&v));
            }
        },
    );
    for (k, ok, why) in obs.borrow().iter() {
        r.add(k, *ok, "src/reference", why);
    }
    r.functions += e.analysed.len();
    r.exhausted |= e.exhausted;
}
fn whole_term(v: &V) -> Option<T> {
    match v {
        V::Opq(t, _) => Some(*t),
        _ => None,
    }
}

/// Follows each directory entry from the directory to the list of names.
struct Listing {
    obs: Obs,
    /// the directories this listing is about
    want: Rc<RefCell<Vec<&'static str>>>,
    lists: std::collections::BTreeSet<FnId>,
    /// directories are kept to be read later
    kept: Rc<RefCell<(bool, bool)>>,
}
const KINDS: [&str; 3] = ["heads", "tags", "remotes"];
pub fn main_term(e: &mut Engine, st: &mut State, v: &V) -> Option<T> {
    dig(e, st, v, 0, &mut |e, st, v| match v {
        V::Opq(t, _) => Some(*t),
        V::Seq(_) | V::Slice(_) => Some(e.content(st, v)),
        V::Int(l) => match (l.c, &l.m[..]) {
            (0, [(t, 1)]) => Some(*t),
            _ => None,
        },
        _ => None,
    })
}
fn says(e: &mut Engine, st: &mut State, v: &V, t: T) -> bool {
    let w = e.mem.deref_all(st, v);
    if let V::Seq(q) = &w {
        // the elements of a short list
        if let (Some(n), false) = (st.fx.norm(&q.len).is_const().filter(|n| *n <= 4), matches!(e.prog.k(q.ety), TK::Int { .. })) {
            let s = e.sl(st, &w);
            for i in 0..n {
                let x = e.mem.slice_elem(st, &s, &Lin::k(i));
                if says(e, st, &x, t) {
                    return true;
                }
            }
        }
    }
    dig(e, st, v, 0, &mut |e, st, v| {
        let x = match v {
            V::Opq(x, _) => Some(*x),
            V::Seq(_) | V::Slice(_) => Some(e.content(st, v)),
            _ => None,
        };
        x.filter(|x| mentions(*x, t)).map(|_| ())
    })
    .is_some()
}
fn gterm(st: &State, k: &str) -> Option<T> {
    match st.gv.get(k) {
        Some(V::Int(l)) => match (l.c, &l.m[..]) {
            (0, [(t, 1)]) => Some(*t),
            _ => None,
        },
        _ => None,
    }
}
const LENS: [&str; 4] = ["len0", "len1", "len2", "len3"];
fn set_term(st: &mut State, k: &str, t: Option<T>) {
    match t {
        Some(t) => st.set_gv(k, V::Int(lt(t))),
        None => {
            Rc::make_mut(&mut st.gv).remove(k);
        }
    }
}
/// base and components of a path
fn path_parts(t: T, out: &mut Vec<String>) -> Option<T> {
    if let Some(x) = is_app(t, "pjoin") {
        let b = path_parts(x[0], out)?;
        let l = lit_of(x[1])?;
        out.extend(String::from_utf8_lossy(&l).split('/').filter(|x| !x.is_empty()).map(|x| x.to_string()));
        return Some(b);
    }
    Some(t)
}
/// What is known about an entry being a directory, itself and not what it may link to.
fn is_directory(st: &State, ent: T) -> Option<bool> {
    for (t, v) in &st.fx.eq {
        if let Some(x) = is_app(*t, "is_dir") {
            // (`std::fs::metadata` tells about what a link leads to)
            let followed = deep(x[0]).iter().chain([&x[0]]).any(|y| ["metadata", "stat"].iter().any(|m| is_app(*y, m).map_or(false, |b| is_app(b[0], "direntry").is_none())));
            if x.len() == 1 && mentions(x[0], ent) && !followed {
                return v.is_const().map(|k| k == 1);
            }
        }
    }
    None
}
/// Whether something made from the entry of a directory is known to be a directory itself,
/// and not a link to one.
pub fn real_directory(e: &mut Engine, st: &mut State, v: &V) -> bool {
    let t = match main_term(e, st, v) {
        Some(t) => t,
        None => return false,
    };
    let mut ents = vec![];
    for x in deep(t).iter() {
        if is_app(*x, "direntry").is_some() {
            ents.push(*x);
        }
    }
    if std::env::var("SA_EV").is_ok() {
        println!("recurse {} {}", show(t), st.fx.show());
    }
    ents.into_iter().any(|x| is_directory(st, x) == Some(true))
}
fn failed(e: &mut Engine, st: &mut State, v: &V) -> bool {
    match e.mem.deref_all(st, v) {
        V::Adt(a) => a.var == 1 && e.prog.adt_path(a.ty) == "std::result::Result",
        V::Seq(q) if st.fx.norm(&q.len).is_const() == Some(1) && !matches!(e.prog.k(q.ety), TK::Int { .. }) => {
            let s = e.sl(st, v);
            let x = e.mem.slice_elem(st, &s, &Lin::k(0));
            failed(e, st, &x)
        }
        _ => false,
    }
}
impl Listing {
    fn add(&self, e: &Engine, rule: &str, ok: bool, why: String) {
        self.obs.borrow_mut().push((format!("C19:{}:{}", e.root, rule), ok, why));
    }
    /// Something was put into a list, or handed to a function that lists a directory.
    fn taken(&self, e: &mut Engine, st: &mut State, v: &V, result: bool, once: bool) {
        if let Some(p) = gterm(st, "item") {
            if says(e, st, v, p) {
                set_term(st, "item", None);
                return;
            }
        }
        if let Some(p) = gterm(st, "entry") {
            if says(e, st, v, p) {
                let d = is_directory(st, p);
                if !result {
                    self.add(e, "only real directories are descended into", d == Some(true), "the entry may be a link or a file".into());
                } else if d == Some(true) {
                    self.kept.borrow_mut().0 = true;
                } else {
                    self.add(e, "what is listed is not a directory", d == Some(false), "the entry may be a directory".into());
                }
                set_term(st, "entry", None);
                set_term(st, "done", Some(p));
                return;
            }
        }
        if failed(e, st, v) {
            // a failure to look at the entry
            set_term(st, "entry", None);
            set_term(st, "item", None);
            return;
        }
        if let Some(p) = gterm(st, "done") {
            if result && once && says(e, st, v, p) {
                self.add(e, "an entry is listed once", false, show_v(v));
            }
        }
    }
    fn free(&self, e: &mut Engine, st: &mut State, entries: bool, rule: &str) {
        let a = gterm(st, "item");
        let b = gterm(st, "entry").filter(|_| entries);
        let none = a.is_none() && b.is_none();
        self.add(e, rule, none, a.or(b).map(show).unwrap_or_default());
        set_term(st, "item", None);
        if entries {
            set_term(st, "entry", None);
        }
    }
    fn used(&self, st: &mut State, t: T) {
        for k in ["list0", "list1", "list2", "list3", "sub"] {
            if gterm(st, k) == Some(t) {
                set_term(st, k, None);
            }
        }
    }
}
impl Mon for Listing {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        match ev.what {
            "fs" if ev.s == "read_dir" => {
                let t = e.content(st, &ev.v[0]);
                let o = origin(&e.prog, t);
                let mut c = vec![];
                let b = path_parts(o.base, &mut c);
                if let Some(p) = gterm(st, "entry") {
                    if mentions(t, p) {
                        let v = ev.v[0].clone();
                        self.taken(e, st, &v, false, true);
                        return;
                    }
                }
                let want = self.want.borrow().clone();
                let arg = b.map_or(false, |b| part_of(b, b) && matches!(kind(b), K::App("fld", _)));
                match KINDS.iter().find(|k| c == ["refs", **k]) {
                    Some(k) if arg => {
                        self.add(e, "only the directories of its kind are listed", want.contains(k), c.join("/"));
                        st.set_g(k, 1);
                    }
                    _ => {
                        self.kept.borrow_mut().1 = true;
                        let later = matches!(kind(t), K::App("inst", _) | K::App("sel", _) | K::App("phi", _) | K::App("fld", _)) || show(t).contains("phi#");
                        self.add(e, "only the directories of its kind are listed", later, show(t));
                    }
                }
            }
            "recurse" => {
                for v in ev.v.clone().iter() {
                    if gterm(st, "entry").map_or(false, |p| says(e, st, v, p)) {
                        self.taken(e, st, v, false, true);
                    }
                }
            }
            "recursed" if matches!(ev.v[0], V::Seq(_)) || ok_of(&ev.v[0]).map_or(false, |v| matches!(v, V::Seq(_))) => {
                let t = main_term(e, st, &ev.v[0]);
                set_term(st, "sub", t);
            }
            "dir_entry" => {
                self.free(e, st, true, "each entry of a directory is listed or descended into");
                let t = main_term(e, st, &ev.v[0]);
                set_term(st, "entry", t);
                set_term(st, "done", None);
                let d = main_term(e, st, &ev.v[1]);
                set_term(st, "dir", d);
            }
            "dir_end" => {
                self.free(e, st, true, "each entry of a directory is listed or descended into");
                set_term(st, "dir", None);
            }
            "seq_item" | "seq_end" if !listed(e, ev) => {}
            "seq_item" => {
                self.free(e, st, false, "each item of a list is handed on");
                let v = ev.v[0].clone();
                self.taken(e, st, &v, true, false);
                let t = main_term(e, st, &v);
                set_term(st, "item", t);
                let s = e.content(st, &ev.v[1]);
                let o = origin(&e.prog, s);
                self.used(st, o.base);
                set_term(st, "seq", Some(o.base));
            }
            "seq_end" => {
                self.free(e, st, false, "each item of a list is handed on");
                let s = e.content(st, &ev.v[0]);
                let o = origin(&e.prog, s);
                self.used(st, o.base);
                set_term(st, "seq", None);
            }
            "collected" | "push" => {
                let v = ev.v.last().unwrap().clone();
                if let V::Int(l) = &v {
                    // bytes of a name
                    let x = st.fx.norm(l);
                    if x.is_const() == Some(47) {
                        let ok = st.fx.eq.iter().any(|(t, v)| v.is_const() == Some(92) && is_app(*t, "sel").is_some());
                        self.add(e, "only backslashes in a name are replaced", ok, "a slash".into());
                    } else {
                        let ok = matches!((x.c, &x.m[..]), (0, [(t, 1)]) if is_app(*t, "sel").is_some());
                        self.add(e, "the other bytes of a name are kept", ok, showl(&x));
                    }
                    return;
                }
                self.taken(e, st, &v, true, true);
                if e.prog.ts(e.root_ty).contains("Vec<std::vec::Vec<u8>") {
                    if let V::Seq(q) = &v {
                        if mentions_app(q.c, "pdiff") {
                            let mut t = q.c;
                            if let Some(x) = is_app(t, "bytemap") {
                                t = x[0];
                            }
                            let ok = is_app(t, "pdiff").map_or(false, |x| matches!(kind(x[1]), K::App("fld", _)) && !mentions_app(x[1], "pjoin"));
                            self.add(e, "names are relative to the directory of the repository", ok, show(q.c));
                        }
                    }
                }
            }
            "extend" => {
                let c = e.content(st, &ev.v[1]);
                let o = origin(&e.prog, c);
                self.used(st, o.base);
                self.taken(e, st, &ev.v[1].clone(), true, true);
            }
            "appended" => {
                if let (Some(a), Some(b)) = (term_int(&ev.v[0]), term_int(&ev.v[1])) {
                    self.used(st, b);
                    for k in ["list0", "list1", "list2", "list3"] {
                        if gterm(st, k) == Some(a) {
                            set_term(st, k, Some(app("cat", vec![a, b])));
                        }
                    }
                }
            }
            "reorder" => {
                if ev.s.contains("truncate") || ev.s.contains("dedup") || ev.s.contains("retain") || ev.s.contains("drain") {
                    self.add(e, "nothing is removed from a list", false, ev.s.clone());
                }
            }
            _ => {}
        }
    }
    fn ret(&mut self, e: &mut Engine, st: &mut State, f: FnId, v: &V) {
        if let V::Seq(q) = v {
            // a list made of the entry
            if !matches!(e.prog.k(q.ety), TK::Int { .. }) {
                self.taken(e, st, v, true, true);
            }
        }
        if self.lists.contains(&f) {
            if let Some(x) = ok_of(v) {
                if let Some(t) = main_term(e, st, &x) {
                    for k in ["list0", "list1", "list2", "list3"] {
                        if gterm(st, k).is_none() {
                            set_term(st, k, Some(t));
                            if let V::Seq(q) = e.mem.deref_all(st, &x) {
                                let n = match st.gv.get("#total") {
                                    Some(V::Int(n)) => n.add(&q.len),
                                    _ => q.len.clone(),
                                };
                                st.set_gv("#total", V::Int(n));
                                st.set_gv(LENS[k.as_bytes()[4] as usize - 48], V::Int(q.len.clone()));
                            }
                            break;
                        }
                    }
                }
            }
        }
    }
}
/// A list of paths or names.
fn listed(e: &Engine, ev: &Ev) -> bool {
    match ev.v.last() {
        Some(V::Slice(s)) => {
            let t = e.prog.ts(s.seq.ety);
            ["PathBuf", "OsString", "String", "Vec<u8>", "DirEntry"].iter().any(|x| t.contains(x))
        }
        _ => true,
    }
}
fn term_int(v: &V) -> Option<T> {
    match v {
        V::Int(l) => match (l.c, &l.m[..]) {
            (0, [(t, 1)]) => Some(*t),
            _ => None,
        },
        _ => None,
    }
}
fn mentions_app(t: T, f: &str) -> bool {
    match kind(t) {
        K::App(g, x) => g == f || x.iter().any(|x| mentions_app(*x, f)),
        _ => false,
    }
}
pub fn c19(prog: &Rc<Prog>, r: &mut Report) {
    let obs: Obs = Default::default();
    let want: Rc<RefCell<Vec<&'static str>>> = Default::default();
    let kept: Rc<RefCell<(bool, bool)>> = Default::default();
    let mut e = engine(prog);
    e.join_at = 12;
    e.merge_at = 1 << 20;
    e.max_steps = 3_000_000;
    let is_list = |p: &Prog, f: FnId| p.fns[f].body.as_ref().map_or(false, |b| b.argc == 1 && p.ts(b.locals[1]).ends_with("ReferenceDatabase") && p.ts(b.locals[0]).contains("Vec<std::vec::Vec<u8>"));
    let roots: Vec<FnId> = prog.roots.iter().filter(|x| !x.generic && is_list(prog, x.inst)).map(|x| x.inst).collect();
    for f in roots.clone() {
        let name = prog.fns[f].path.rsplit("::").next().unwrap_or("").to_string();
        let w: Vec<&'static str> = match KINDS.iter().find(|k| name.contains(&k[..k.len() - 1])) {
            Some(k) => vec![*k],
            None => KINDS.to_vec(),
        };
        *want.borrow_mut() = w.clone();
        *kept.borrow_mut() = (false, false);
        let lists = roots.iter().copied().filter(|g| *g != f).collect();
        e.mon = Some(Box::new(Listing { obs: obs.clone(), want: want.clone(), lists, kept: kept.clone() }));
        functions(&mut e, r, &[f], &mut |_, _, _| {}, &mut |e, st, path, _a, out| {
            let mut add = |rule: &str, ok: bool, why: String| obs.borrow_mut().push((format!("C19:{}:{}", path, rule), ok, why));
            let v = match ok_of(out) {
                Some(v) => v,
                None => return,
            };
            for k in &w {
                add("every directory of its kind is read", st.g(k) == 1, format!("refs/{}", k));
            }
            let left = gterm(st, "item").or(gterm(st, "entry"));
            add("nothing is left over at the end", left.is_none(), left.map(show).unwrap_or_default());
            add("every list and directory is read to its end", gterm(st, "dir").is_none() && gterm(st, "seq").is_none(), gterm(st, "dir").or(gterm(st, "seq")).map(show).unwrap_or_default());
            let mut ok = gterm(st, "sub").is_none();
            let mut lost = gterm(st, "sub");
            // as many names as there are in the parts
            let whole = match (e.mem.deref_all(st, &v), st.gv.get("#total").cloned()) {
                (V::Seq(q), Some(V::Int(n))) => st.implies(&F::eq(&q.len, &n)),
                _ => false,
            };
            for k in ["list0", "list1", "list2", "list3"] {
                if let Some(t) = gterm(st, k) {
                    let empty = match st.gv.get(LENS[k.as_bytes()[4] as usize - 48]) {
                        Some(V::Int(n)) => st.implies(&F::eq(n, &Lin::k(0))),
                        _ => false,
                    };
                    let said = whole || empty || says(e, st, &v, t);
                    ok &= said;
                    lost = lost.or(Some(t).filter(|_| !said));
                }
            }
            add("what the parts list is part of the result", ok, format!("{} is not part of {}", lost.map(show).unwrap_or_default(), show_v(&v)));
        });
        let k = *kept.borrow();
        if k.0 && !k.1 {
            obs.borrow_mut().push((format!("C19:{}:directories that are kept are read", prog.fns[f].path), false, "directories are listed".into()));
        }
    }
    for (k, ok, why) in obs.borrow().iter() {
        r.add(k, *ok, "src/reference/database.rs", why);
    }
    r.functions += e.analysed.len();
    r.exhausted |= e.exhausted;
}
