// Contracts of components, continued: object headers, kinds and lengths.
use crate::checks::*;
use crate::comp::*;
use crate::comp2::*;
use crate::exec::*;
use crate::mons::lcheck;
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::collections::BTreeSet;
use std::rc::Rc;

pub const KINDS: [&str; 4] = ["commit", "tree", "blob", "tag"];
pub fn word_at(st: &State, c: T, off: &Lin, w: &[u8]) -> bool {
    w.iter().enumerate().all(|(i, b)| {
        let t = sel(c, &st.fx.norm(&off.addc(i as i128)), Some((0, 255)));
        same(st, &lt(t), &Lin::k(*b as i128)) || same(st, &lt(sel(c, &off.addc(i as i128), Some((0, 255)))), &Lin::k(*b as i128))
    })
}
fn ret_of(p: &Prog, x: &Root) -> Ty {
    p.fns[x.inst].body.as_ref().unwrap().locals[0]
}
pub fn parser_of(e: &mut Engine, st: &mut State, v: &V) -> Option<(T, Lin, Lin)> {
    let b = field(e, st, v, "buffer")?;
    let p = field(e, st, v, "pos")?;
    let s = e.sl(st, &b);
    let c = e.mem.slice_content(st, &s);
    Some((c, e.as_int(&p), s.len.clone()))
}
fn low(k: &str) -> String {
    k.to_lowercase()
}
/// Runs functions on arbitrary arguments.
pub fn functions(e: &mut Engine, r: &mut Report, fns: &[FnId], pre: &mut dyn FnMut(&mut Engine, &mut State, &[V]), post: &mut dyn FnMut(&mut Engine, &mut State, &str, &[V], &V)) {
    e.arb = true;
    let prog = e.prog.clone();
    let mut done = BTreeSet::new();
    for f in fns {
        if !done.insert(prog.fns[*f].inst.clone()) {
            continue;
        }
        e.root = prog.fns[*f].inst.clone();
        e.root_ty = prog.fns[*f].body.as_ref().unwrap().locals[0];
        r.roots.push(prog.fns[*f].inst.clone());
        let mut args: Vec<V> = vec![];
        let outs = e.run_root(*f, &mut |e, st, tys| {
            args = tys.iter().map(|t| e.mem.fresh("arg", *t)).collect();
            let vs = args.clone();
            pre(e, st, &vs);
            args.clone()
        });
        for (mut s, v) in outs {
            if !s.fx.bot {
                let a = args.clone();
                post(e, &mut s, &prog.fns[*f].path, &a, &v);
            }
        }
    }
}
/// The header of a loose object: `<kind> <decimal length>\0`.
pub fn header(prog: &Rc<Prog>, r: &mut Report, prop: &str) {
    let mut obs: Vec<(String, bool, String)> = vec![];
    let mut seen = BTreeSet::new();
    let mut e = engine(prog);
    e.join_at = 4096;
    e.merge_at = 1 << 20;
    let mut from = None;
    let from = std::cell::RefCell::new(&mut from);
    let fns: Vec<FnId> = (0..prog.fns.len())
        .filter(|f| match &prog.fns[*f].body {
            Some(b) => b.argc == 1 && ok_is(prog, b.locals[0], "object::ObjectHeader") && prog.ts(b.locals[1]).contains("parse::parser::Parser<&[u8]>"),
            None => false,
        })
        .collect();
    functions(
        &mut e,
        r,
        &fns,
        &mut |e, st, args| **from.borrow_mut() = parser_of(e, st, &args[0]),
        &mut |e, st, path, _args, out| {
            let h = match ok_of(out) {
                Some(h) => h,
                None => return,
            };
            let mut add = |rule: &str, ok: bool, why: String| obs.push((format!("{}:{}:{}", prop, path, rule), ok, why));
            let (c, p) = match &**from.borrow() {
                Some((c, p, _)) => (*c, p.clone()),
                None => return add("the header is read from the parser", false, "no parser".into()),
            };
            let kind = field(e, st, &h, "kind").and_then(|k| variant(e, st, &k));
            let len = field(e, st, &h, "len").map(|l| e.as_int(&l));
            let (kind, len) = match (kind, len) {
                (Some(k), Some(l)) => (low(&k), l),
                _ => return add("the kind depends on the header", false, show_v(&h)),
            };
            let ok = KINDS.contains(&kind.as_str()) && word_at(st, c, &p, kind.as_bytes()) && word_at(st, c, &p.addc(kind.len() as i128), b" ");
            add("the kind is the word the header starts with", ok, format!("{} is accepted for another word", kind));
            seen.insert(kind.clone());
            let at = p.addc(kind.len() as i128 + 1);
            let mut right = false;
            let l = st.fx.norm(&len);
            for l in [&l, &len] {
                if let (0, [(t, 1)]) = (l.c, &l.m[..]) {
                    if let K::App("parse", a) = crate::term::kind(*t) {
                        let o = origin(&e.prog, a[0]);
                        let n = o.len.clone().unwrap_or(Lin::k(-1));
                        right |= o.base == c && same(st, &o.off, &at) && word_at(st, c, &o.off.add(&n), b"\0") && lt(a[1]).is_const() == Some(10);
                    }
                }
            }
            add("the length is the decimal number between the space and the NUL", right, showl(&len));
        },
    );
    for k in KINDS {
        r.add(&format!("{}:header:`{}` is accepted", prop, k), seen.contains(k), "src/object/parse.rs", "no path accepts this kind");
    }
    for (k, ok, why) in obs {
        r.add(&k, ok, "src/object/parse.rs", &why);
    }
    r.functions += e.analysed.len();
    r.exhausted |= e.exhausted;
}
/// The kind of a decoded object is the kind it is decoded as; the kind of a tag is the word in it.
pub fn c12(prog: &Rc<Prog>, r: &mut Report) {
    header(prog, r, "C12");
    let mut obs: Vec<(String, bool, String)> = vec![];
    let mut seen = BTreeSet::new();
    let mut e = engine(prog);
    e.join_at = 4096;
    e.merge_at = 1 << 20;
    component(
        &mut e,
        r,
        &|p, x| {
            let a = sig(p, x).0;
            ok_is(p, ret_of(p, x), "object::ObjectData") && a.iter().any(|a| a == "object::ObjectKind")
        },
        &mut |_, _, _| {},
        &mut |e, st, path, args, out| {
            let d = match ok_of(out) {
                Some(d) => d,
                None => return,
            };
            let is = variant(e, st, &d).unwrap_or_default();
            let p = e.prog.clone();
            let k = args.iter().find(|v| matches!(v, V::Opq(_, t) if p.ts(*t) == "object::ObjectKind")).cloned();
            let want = k.as_ref().and_then(|k| variant(e, st, k)).unwrap_or("any kind".into());
            obs.push((format!("C12:{}:an object is decoded as its kind", path), is == want, format!("{} is decoded as {}", want, is)));
            seen.insert(low(&is));
        },
    );
    for k in KINDS {
        r.add(&format!("C12:body:a {} can be decoded", k), seen.contains(k), "src/object/parse.rs", "no path decodes this kind");
    }
    r.functions += e.analysed.len();
    // the object handed out has the kind of its header
    let mut e = engine(prog);
    e.mon = Some(Box::new(Heads { p12: true, p13: false }));
    component(
        &mut e,
        r,
        &|p, x| ok_is(p, ret_of(p, x), "object::ObjectData") && sig(p, x).0.iter().any(|a| a.contains("ObjectReader")),
        &mut |_, _, _| {},
        &mut |e, st, path, args, out| {
            let d = match ok_of(out) {
                Some(d) => d,
                None => return,
            };
            let is = variant(e, st, &d).unwrap_or("an undecided kind".into());
            let h = match field(e, st, &args[0], "header") {
                Some(h) => h,
                None => return,
            };
            let had = variant(e, st, &h).unwrap_or_default();
            let hdr = match had.as_str() {
                "Some" => match e.mem.expand(&h, 1) {
                    V::Adt(a) => Some(a.f[0].clone()),
                    _ => None,
                },
                _ => st.gv.get("h:hdr").cloned(),
            };
            let k = hdr.and_then(|h| field(e, st, &h, "kind"));
            let want = k.and_then(|k| variant(e, st, &k)).unwrap_or("any kind".into());
            obs.push((format!("C12:{}:the object has the kind of its header", path), is == want, format!("{} is decoded as {}", want, is)));
        },
    );
    r.functions += e.analysed.len();
    // the kind named in a tag
    let mut seen = BTreeSet::new();
    let mut e = engine(prog);
    e.join_at = 64;
    e.merge_at = 4096;
    let from = std::cell::RefCell::new(None);
    component(
        &mut e,
        r,
        &|p, x| ok_is(p, ret_of(p, x), "object::tag::Tag"),
        &mut |e, st, args| *from.borrow_mut() = parser_of(e, st, &args[0]),
        &mut |e, st, path, _args, out| {
            let t = match ok_of(out) {
                Some(t) => t,
                None => return,
            };
            let (c, p) = match &*from.borrow() {
                Some((c, p, _)) => (*c, p.clone()),
                None => return,
            };
            let kind = field(e, st, &t, "kind").and_then(|k| variant(e, st, &k)).map(|k| low(&k)).unwrap_or_default();
            let at = p.addc(48);
            let ok = KINDS.contains(&kind.as_str()) && word_at(st, c, &at, b"type ") && word_at(st, c, &at.addc(5), kind.as_bytes()) && word_at(st, c, &at.addc(5 + kind.len() as i128), b"\n");
            obs.push((format!("C12:{}:the kind of a tag is the word in its type line", path), ok, format!("`{}` for another word", kind)));
            seen.insert(kind);
        },
    );
    for k in KINDS {
        r.add(&format!("C12:tag:the kind {} is accepted", k), seen.contains(k), "src/object/tag.rs", "no path accepts this kind");
    }
    r.functions += e.analysed.len();
    for (k, ok, why) in obs {
        r.add(&k, ok, "src/object", &why);
    }
    // packed objects: the type bits and the kinds of deltas
    let mut x = Report::new("");
    c24(prog, &mut x);
    c15(prog, &mut x);
    for (k, o) in &x.obl {
        if k.contains("kind") || k.contains("type") {
            r.add(&format!("C12{}", &k[3..]), o.ok, &o.at, &o.why);
        }
    }
    r.functions += x.functions;
    r.roots.extend(x.roots);
    r.exhausted |= x.exhausted;
}
/// Headers and what is read for them.
pub struct Heads {
    pub p12: bool,
    pub p13: bool,
}
fn same_header(e: &mut Engine, st: &mut State, a: &V, b: &V, kind: bool) -> bool {
    let (x, y) = (field(e, st, a, "len"), field(e, st, b, "len"));
    let l = match (x, y) {
        (Some(x), Some(y)) => same(st, &e.as_int(&x), &e.as_int(&y)),
        _ => false,
    };
    let (x, y) = (field(e, st, a, "kind"), field(e, st, b, "kind"));
    let k = match (x, y) {
        (Some(x), Some(y)) => {
            let (x, y) = (e.discr(st, &x), e.discr(st, &y));
            same(st, &x, &y)
        }
        _ => false,
    };
    if kind {
        k
    } else {
        l
    }
}
/// The object headers inside a value.
fn headers_in(e: &mut Engine, st: &mut State, v: &V, depth: usize, out: &mut Vec<V>) {
    let v = match v {
        V::Ref(_) => e.mem.deref_all(st, v),
        x => x.clone(),
    };
    let t = match &v {
        V::Adt(a) => a.ty,
        V::Opq(_, t) => *t,
        _ => return,
    };
    if e.prog.adt_path(t) == "object::ObjectHeader" {
        out.push(v);
        return;
    }
    if depth == 0 || !e.prog.ts(t).contains("Header") && !e.prog.ts(t).contains("object::database") {
        return;
    }
    let fs: Vec<V> = match &v {
        V::Adt(a) => a.f.clone(),
        V::Opq(..) => match e.mem.expand(&v, if e.prog.adt_path(t) == "std::option::Option" { 1 } else { 0 }) {
            V::Adt(a) => a.f.clone(),
            _ => return,
        },
        _ => return,
    };
    for f in fs {
        headers_in(e, st, &f, depth - 1, out);
    }
}
/// The byte string inside a value.
fn bytes_in(e: &mut Engine, st: &mut State, v: &V, depth: usize) -> Option<V> {
    let v = match v {
        V::Ref(_) => e.mem.deref_all(st, v),
        x => x.clone(),
    };
    match &v {
        V::Seq(q) => Some(v.clone()).filter(|_| matches!(e.prog.k(q.ety), TK::Int { .. })),
        V::Slice(q) => Some(v.clone()).filter(|_| matches!(e.prog.k(q.seq.ety), TK::Int { .. })),
        V::Adt(a) if depth > 0 => {
            for f in a.f.clone() {
                if let Some(x) = bytes_in(e, st, &f, depth - 1) {
                    return Some(x);
                }
            }
            None
        }
        V::Opq(_, t) if depth > 0 && (e.prog.ts(*t).contains("Bytes") || e.prog.ts(*t).contains("Vec<u8>")) => match e.mem.expand(&v, 0) {
            V::Opq(..) => None,
            x => bytes_in(e, st, &x, depth - 1),
        },
        _ => None,
    }
}
/// What a function decoded: bytes, perhaps with their header.
pub fn kept_ret(e: &mut Engine, st: &mut State, f: FnId, v: &V) {
    let t = match &e.prog.fns[f].body {
        Some(b) => b.locals[0],
        None => return,
    };
    let ts = e.prog.ts(t);
    if !ts.starts_with("std::result::Result<") || !ts.contains("ObjectHeader") && !ts.contains("Bytes") && !ts.contains("Vec<u8>") {
        return;
    }
    let v = match ok_of(v) {
        Some(v) => v,
        None => return,
    };
    let mut hs = vec![];
    headers_in(e, st, &v, 2, &mut hs);
    let h = hs.pop();
    match bytes_in(e, st, &v, 3) {
        Some(b) => {
            let (c, n) = (e.content(st, &b), e.sl(st, &b).len.clone());
            st.set_gv("k:bytes", V::Int(lt(c)));
            st.set_gv("k:len", V::Int(n));
            if let Some(h) = h {
                st.set_gv("k:pair", h);
            }
        }
        None => {
            if let Some(h) = h {
                st.set_gv("k:hdr", h);
            }
        }
    }
}
/// What is remembered is what was decoded.
pub fn kept_insert(e: &mut Engine, st: &mut State, prop: &'static str, v: &V) {
    let mut hs = vec![];
    headers_in(e, st, v, 3, &mut hs);
    let (h, b) = match (hs.pop(), bytes_in(e, st, v, 3)) {
        (Some(h), Some(b)) => (h, b),
        _ => {
            lcheck(e, prop, "what is remembered is what was decoded", false, || "not a header and its bytes".into());
            return;
        }
    };
    let mut kind = false;
    if let Some(k) = st.gv.get("k:pair").cloned() {
        kind = same_header(e, st, &h, &k, true);
    }
    if let (false, Some(k)) = (kind, st.gv.get("k:hdr").cloned()) {
        if let (true, Some(x)) = (same_header(e, st, &h, &k, true), field(e, st, &h, "kind")) {
            let d = e.discr(st, &x);
            let mut z = st.clone();
            z.assume(&F::le(&Lin::k(6), &d));
            kind = z.fx.bot || st.implies(&F::le(&d, &Lin::k(5)));
        }
    }
    lcheck(e, prop, "what is remembered has the kind of what was decoded", kind, || "another kind is remembered".into());
    if prop == "C17" {
        let (c, n) = (e.content(st, &b), e.sl(st, &b).len.clone());
        let said = match (st.gv.get("k:bytes"), st.gv.get("k:len")) {
            (Some(V::Int(x)), Some(V::Int(m))) => st.fx.norm(x) == st.fx.norm(&lt(c)) && same(st, m, &n),
            _ => false,
        };
        lcheck(e, prop, "what is remembered is what was decoded", said, || format!("{} is remembered", show(c)));
        let len = field(e, st, &h, "len").map_or(false, |l| same(st, &e.as_int(&l), &n));
        lcheck(e, prop, "what is remembered has the length of its header", len, || format!("{} bytes", showl(&n)));
    }
    for k in ["k:bytes", "k:len", "k:hdr"] {
        st.del_gv(k);
    }
}
/// Only what is remembered.
pub struct Kept;
impl Mon for Kept {
    fn ret(&mut self, e: &mut Engine, st: &mut State, f: FnId, v: &V) {
        kept_ret(e, st, f, v);
    }
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        if ev.what == "map_insert" && crate::mons::cache_map(&ev.s) {
            kept_insert(e, st, "C12", &ev.v[2].clone());
        }
    }
}
impl Mon for Heads {
    fn enter(&mut self, e: &mut Engine, st: &mut State, f: FnId, args: &[V]) {
        let (tys, ret) = match &e.prog.fns[f].body {
            Some(b) => (b.locals[1..=b.argc].to_vec(), b.locals[0]),
            None => return,
        };
        let p = e.prog.clone();
        for (v, t) in args.iter().zip(&tys) {
            // what the caller was handed to read
            if p.ts(*t).contains("ObjectReader") && !p.ts(*t).starts_with('&') || p.ts(*t).contains("packed::pack::ChainEntry") {
                let mut hs = vec![];
                headers_in(e, st, v, 3, &mut hs);
                if let Some(h) = hs.pop() {
                    st.set_gv("h:given", h);
                }
            }
        }
        let whole = ok_is(&p, ret, "bytes::Bytes") || ok_is(&p, ret, "parse::parser::Parser");
        if self.p13 && whole && tys.len() == 2 && p.adt_path(tys[0]) == "parse::buffer::Buffer" && p.ts(tys[1]) == "usize" {
            let n = e.as_int(&args[1]);
            let mut ok = false;
            for k in ["h:hdr", "h:given"] {
                if let Some(h) = st.gv.get(k).cloned() {
                    if let Some(l) = field(e, st, &h, "len") {
                        ok |= same(st, &e.as_int(&l), &n);
                    }
                }
            }
            lcheck(e, "C13", "what is read to its end has the length of its header", ok, || format!("{} bytes are expected", showl(&n)));
        }
    }
    fn ret(&mut self, e: &mut Engine, st: &mut State, f: FnId, v: &V) {
        let t = match &e.prog.fns[f].body {
            Some(b) => b.locals[0],
            None => return,
        };
        let p = e.prog.clone();
        if ok_is(&p, t, "object::ObjectHeader") {
            if let Some(h) = ok_of(v) {
                st.set_gv("h:hdr", h);
            }
        }
    }
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        match (ev.what, ev.s.as_str()) {
            ("push", _) => {
                let v = match ev.v.last() {
                    Some(v) => v.clone(),
                    None => return,
                };
                let mut hs = vec![];
                headers_in(e, st, &v, 3, &mut hs);
                if let (Some(h), Some(k)) = (hs.pop(), st.gv.get("h:hdr").cloned()) {
                    if self.p13 {
                        let ok = same_header(e, st, &h, &k, false);
                        lcheck(e, "C13", "a delta is kept with the length of its header", ok, || "another length is kept".into());
                    }
                }
            }
            ("item", _) => {
                let mut hs = vec![];
                headers_in(e, st, &ev.v[0].clone(), 3, &mut hs);
                if let Some(h) = hs.pop() {
                    st.set_gv("h:given", h);
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- C13
/// The reads of a stream.
struct Stream;
impl Mon for Stream {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        match (ev.what, ev.s.as_str()) {
            ("ok", "read") => {
                let n = e.as_int(&ev.v[0]);
                if let Some(x) = gi(e, st, "#c13:sum") {
                    st.set_gv("#c13:sum", V::Int(x.add(&n)));
                }
                st.set_gv("c13:n", V::Int(n));
                if let Some(V::Slice(s)) = ev.v.get(2) {
                    st.set_gv("c13:cap", V::Int(s.len.clone()));
                    st.set_gv("c13:off", V::Int(s.off.clone()));
                }
            }
            ("err", "read") => {
                st.del_gv("c13:n");
                if let Some(V::Slice(s)) = ev.v.get(2) {
                    st.set_gv("c13:off", V::Int(s.off.clone()));
                }
            }
            _ => {}
        }
    }
}
fn gi(e: &mut Engine, st: &State, k: &str) -> Option<Lin> {
    st.gv.get(k).map(|v| e.as_int(v))
}
pub fn c13(prog: &Rc<Prog>, r: &mut Report) {
    header(prog, r, "C13");
    let mut obs: Vec<(String, bool, String)> = vec![];
    // a stream that is read to its end
    let fns: Vec<FnId> = (0..prog.fns.len())
        .filter(|f| {
            let b = match &prog.fns[*f].body {
                Some(b) if b.argc == 2 => b,
                _ => return false,
            };
            prog.adt_path(b.locals[1]) == "parse::buffer::Buffer" && prog.ts(b.locals[2]) == "usize" && (ok_is(prog, b.locals[0], "bytes::Bytes") || ok_is(prog, b.locals[0], "parse::parser::Parser")) && !prog.ts(b.locals[1]).contains("<R>")
        })
        .collect();
    for f in fns {
        let mut e = engine(prog);
        e.arb = true;
        e.join_at = 64;
        e.merge_at = 4096;
        e.mon = Some(Box::new(Stream));
        e.root = prog.fns[f].inst.clone();
        e.root_ty = prog.fns[f].body.as_ref().unwrap().locals[0];
        r.roots.push(prog.fns[f].inst.clone());
        let mut from = None;
        let mut size = Lin::k(0);
        let outs = e.run_root(f, &mut |e, st, tys| {
            let vs: Vec<V> = tys.iter().map(|t| e.mem.fresh("arg", *t)).collect();
            from = buffered(e, st, &vs[0]);
            st.set_gv("#c13:sum", V::Int(from.as_ref().map_or(Lin::k(0), |f| f.2.clone())));
            size = e.as_int(&vs[1]);
            vs
        });
        let name = prog.fns[f].inst.clone();
        for (mut s, v) in outs {
            let st = &mut s;
            let ok = match ok_of(&v) {
                Some(v) if !st.fx.bot => v,
                _ => continue,
            };
            let p = match &from {
                Some((_, p, _)) => p.clone(),
                None => continue,
            };
            let got = match parser_of(&mut e, st, &ok) {
                Some((_, q, n)) => {
                    obs.push((format!("C13:{}:the content starts after the header", name), same(st, &q, &p), showl(&q)));
                    n
                }
                None => e.sl(st, &ok).len.clone(),
            };
            obs.push((format!("C13:{}:success means that as many bytes as expected were there", name), same(st, &got, &p.add(&size)), format!("{} instead of {}", showl(&got), showl(&p.add(&size)))));
            let all = gi(&mut e, st, "#c13:sum");
            let whole = all.as_ref().map_or(false, |x| same(st, x, &got));
            obs.push((format!("C13:{}:success means that every byte of the stream is there", name), whole, format!("{} of {}", showl(&got), all.map(|x| showl(&x)).unwrap_or_default())));
            let (n, cap) = (gi(&mut e, st, "c13:n"), gi(&mut e, st, "c13:cap"));
            let end = match (&n, &cap) {
                (Some(n), Some(c)) => same(st, n, &Lin::k(0)) && st.implies(&F::le(&Lin::k(1), c)),
                _ => false,
            };
            obs.push((format!("C13:{}:success means that the stream has ended", name), end, "the last read may not have found the end".into()));
        }
        r.functions += e.analysed.len();
        r.exhausted |= e.exhausted;
    }
    // filling the buffer keeps what was read and nothing else
    let fns: Vec<FnId> = (0..prog.fns.len())
        .filter(|f| {
            let b = match &prog.fns[*f].body {
                Some(b) if b.argc == 2 => b,
                _ => return false,
            };
            prog.ts(b.locals[1]).starts_with("&mut parse::buffer::Buffer<") && prog.ts(b.locals[2]) == "usize" && prog.ts(b.locals[0]).starts_with("std::result::Result<&[u8], std::io::Error>") && !prog.ts(b.locals[1]).contains("<R>")
        })
        .collect();
    for f in fns {
        let mut e = engine(prog);
        e.arb = true;
        e.join_at = 64;
        e.merge_at = 4096;
        e.mon = Some(Box::new(Stream));
        e.root = prog.fns[f].inst.clone();
        e.root_ty = prog.fns[f].body.as_ref().unwrap().locals[0];
        r.roots.push(prog.fns[f].inst.clone());
        let mut from = None;
        let mut arg = V::Undef;
        let outs = e.run_root(f, &mut |e, st, tys| {
            let vs: Vec<V> = tys.iter().map(|t| e.mem.fresh("arg", *t)).collect();
            from = buffered(e, st, &vs[0]);
            arg = vs[0].clone();
            vs
        });
        let name = prog.fns[f].inst.clone();
        for (mut s, v) in outs {
            let st = &mut s;
            if st.fx.bot {
                continue;
            }
            let ((_, p, n0), now) = match (&from, buffered(&mut e, st, &arg)) {
                (Some(f), Some(n)) => (f.clone(), n),
                _ => continue,
            };
            let n = gi(&mut e, st, "c13:n").unwrap_or(Lin::k(0));
            obs.push((format!("C13:{}:the buffer grows by what was read", name), same(st, &now.2, &n0.add(&n)), format!("{} after reading {} to {}", showl(&now.2), showl(&n), showl(&n0))));
            if let Some(off) = gi(&mut e, st, "c13:off") {
                obs.push((format!("C13:{}:what is read follows what is there", name), same(st, &off, &n0), format!("read to {} with {} there", showl(&off), showl(&n0))));
            }
            if let Some(V::Slice(s)) = ok_of(&v).as_ref() {
                let end = s.off.add(&s.len);
                obs.push((format!("C13:{}:the bytes found are those at the position", name), same(st, &s.off, &p) && st.implies(&F::le(&end, &now.2)), showl(&s.off)));
            }
        }
        r.functions += e.analysed.len();
    }
    for (k, ok, why) in obs {
        r.add(&k, ok, "src/parse/buffer.rs", &why);
    }
    // each stream is read with the length of its own header
    let mut e = engine(prog);
    e.mon = Some(Box::new(Heads { p12: false, p13: true }));
    run_arb(&mut e, r, &|r| r.path.ends_with("ObjectDatabase::parse_object"), true);
    let (f, n) = (r.functions, r.exhausted);
    r.take(&e, "C13:");
    r.functions += f;
    r.exhausted |= n;
}
