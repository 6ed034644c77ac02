// Models of iterators: adapters are values advanced in place, consumers are loops solved by the
// same fixpoint as the loops of the program.
use crate::exec::*;
use crate::join;
use crate::models::*;
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

const X: Ty = u32::MAX;
fn last(p: &str) -> &str {
    p.rsplit("::").next().unwrap_or(p)
}
type Nexts = Vec<(State, Option<V>)>;

fn fld(p: &Ptr, i: u32) -> Ptr {
    p.push(Pj::F(0, i, X))
}
fn tuple(v: Vec<V>) -> V {
    V::adt(X, 0, v)
}
/// Option inside the analyser: variant 1 holds the value.
fn opt(v: Option<V>) -> V {
    match v {
        Some(v) => V::adt(X, 1, vec![v]),
        None => V::adt(X, 0, vec![]),
    }
}
fn unopt(v: V) -> Option<V> {
    match v {
        V::Adt(a) if a.var == 1 => a.f.first().cloned(),
        _ => None,
    }
}
fn truth(e: &mut Engine, st: State, v: &V) -> Vec<(State, bool)> {
    let f = e.as_bool(v);
    let mut r = vec![];
    for s in split(&st, &f) {
        r.push((s, true));
    }
    for s in split(&st, &f.not()) {
        r.push((s, false));
    }
    r
}
/// A search of bytes for one that equals a constant: the bytes left to search and the constant.
fn byte_search(e: &mut Engine, st: &State, it: &V, f: &V) -> Option<(Rc<SliceV>, Lin)> {
    let mut z = st.clone();
    let s = match e.mem.deref_all(&mut z, it) {
        V::Adt(x) if x.f.len() == 1 => match &x.f[0] {
            V::Slice(s) if s.seq.ety == e.mem.u8_ty => s.clone(),
            _ => return None,
        },
        _ => return None,
    };
    let fty = match f {
        V::Adt(x) => x.ty,
        _ => return None,
    };
    match e.prog.k(fty) {
        TK::Closure { upvars, .. } if upvars.iter().all(|u| !e.prog.ts(*u).contains("mut ")) => {}
        _ => return None,
    }
    let x = ranged(fresh("byte"), (0, 255));
    let u8t = e.mem.u8_ty;
    let xr = e.mem.temp_ref(&mut z, V::Int(lt(x)), u8t);
    let fr = e.mem.temp_ref(&mut z, f.clone(), fty);
    let mut k: Option<Lin> = None;
    let mut no = vec![];
    for (w, b) in e.call_value(z, &fr, vec![xr], None) {
        for (w, b) in truth(e, w, &b) {
            if w.fx.bot {
                continue;
            }
            if b {
                let n = w.fx.norm(&lt(x));
                if n.m.iter().any(|y| y.0 == x) || k.as_ref().map_or(false, |k| *k != n) {
                    return None;
                }
                k = Some(n);
            } else {
                no.push(w);
            }
        }
    }
    let k = k?;
    if k.is_const().is_none() || no.iter_mut().any(|w| w.assume(&F::eq(&lt(x), &k)) && !w.fx.bot) {
        return None;
    }
    Some((s, k))
}
/// The iterator behind a reference has moved on.
fn advance(e: &mut Engine, st: &mut State, it: &V, s: &SliceV, n: &Lin) {
    let mut cur = it.clone();
    while let V::Ref(p) = cur {
        match e.mem.read(st, &p) {
            V::Adt(x) => {
                let rest = e.subslice(st, s, n, &s.len.clone());
                let mut y = (*x).clone();
                y.f = vec![rest].into();
                e.mem.write(st, &p, V::Adt(Rc::new(y)));
                return;
            }
            v => cur = v,
        }
    }
}
pub fn is_iter_path(p: &str) -> bool {
    matches!(
        p,
        "std::slice::Iter"
            | "std::slice::IterMut"
            | "std::vec::IntoIter"
            | "std::vec::Drain"
            | "smallvec::IntoIter"
            | "smallvec::Drain"
            | "std::array::IntoIter"
            | "std::ops::Range"
            | "std::ops::RangeInclusive"
            | "std::ops::RangeFrom"
            | "std::range::Range"
            | "std::option::IntoIter"
            | "std::option::Iter"
            | "std::str::Bytes"
            | "bytes::buf::IntoIter"
            | "std::slice::Chunks"
            | "std::slice::ChunksExact"
            | "std::slice::Windows"
            | "std::path::Components"
            | "std::path::Iter"
            | "std::fs::ReadDir"
            | "fs_err::ReadDir"
            | "dashmap::iter::Iter"
            | "dashmap::iter::IterMut"
            | "dashmap::iter::OwningIter"
            | "std::collections::hash_map::Iter"
            | "std::collections::hash_map::Values"
            | "std::collections::hash_map::IntoIter"
    ) || p.starts_with("std::iter::")
}
/// Type-directed view of a value as an iterator.
fn as_iter(e: &mut Engine, st: &mut State, v: &V, vty: Ty, ity: Ty) -> V {
    let by_ref = matches!(e.prog.k(vty), TK::Ref(..));
    let t = peel(e, vty);
    let path = e.prog.adt_path(t).to_string();
    if is_iter_path(&path) {
        return v.clone();
    }
    if e.mem.seq_elem(t).is_some() {
        let s = e.sl(st, v);
        let s = if by_ref { s } else { Rc::new(SliceV { loc: None, ..(*s).clone() }) };
        let owned = !by_ref;
        return V::adt(ity, 0, vec![V::Slice(s), V::Bool(F::of(owned))]);
    }
    if path == "std::option::Option" && !by_ref {
        return V::adt(ity, 0, vec![v.clone()]);
    }
    v.clone()
}
/// Value of an iterator whose type we only see through its parts.
fn kind_of(e: &Engine, v: &V) -> String {
    match v {
        V::Adt(a) if a.ty != X => e.prog.adt_path(a.ty).to_string(),
        V::Opq(_, t) => e.prog.adt_path(*t).to_string(),
        _ => String::new(),
    }
}
pub fn next(e: &mut Engine, mut st: State, p: &Ptr, back: bool) -> Nexts {
    let mut v = e.mem.read(&mut st, p);
    let mut p = p.clone();
    for _ in 0..4 {
        if let V::Ref(q) = &v {
            p = q.clone();
            v = e.mem.read(&mut st, &p);
        } else {
            break;
        }
    }
    let k = kind_of(e, &v);
    let a: Vec<V> = match &v {
        V::Adt(a) => a.f.clone(),
        _ => vec![],
    };
    let name = last(&k).to_string();
    // the sequence iterators
    if let Some(V::Slice(s)) = a.first() {
        if k != "std::path::Components" && k != "std::path::Iter" && !matches!(name.as_str(), "Chunks" | "ChunksExact" | "Windows") {
            let s = s.clone();
            let owned = a.get(1) == Some(&V::Bool(F::T));
            let mut r = vec![];
            let (y, n) = e.fork2(&st, &F::lt(&Lin::k(0), &s.len));
            let of_results = owned && path_of(e, s.seq.ety) == "std::result::Result";
            let whole = !matches!(e.prog.k(s.seq.ety), TK::Int { .. });
            if let Some(mut z) = n {
                if whole {
                    e.emit(&mut z, "seq_end", vec![V::Slice(s.clone())], "");
                }
                if of_results {
                    e.emit(&mut z, "elem_end", vec![], "");
                }
                r.push((z, None));
            }
            if let Some(mut z) = y {
                let i = if back { s.len.addc(-1) } else { Lin::k(0) };
                let item = if owned {
                    e.mem.slice_elem(&mut z, &s, &i)
                } else {
                    // the elements may have changed since the iterator was made only through it
                    e.elem_ref(&mut z, &s, &i)
                };
                let ns = SliceV { seq: s.seq.clone(), off: if back { s.off.clone() } else { s.off.addc(1) }, len: s.len.addc(-1), loc: s.loc.clone() };
                e.mem.write(&mut z, &fld(&p, 0), V::Slice(Rc::new(ns)));
                if whole {
                    e.emit(&mut z, "seq_item", vec![item.clone(), V::Slice(s.clone())], if back { "back" } else { "front" });
                }
                if of_results {
                    e.emit(&mut z, "elem", vec![item.clone()], "");
                } else if matches!(&item, V::Adt(_)) {
                    e.emit(&mut z, "item", vec![item.clone()], if back { "back" } else { "front" });
                }
                r.push((z, Some(item)));
            }
            return r;
        }
        if matches!(name.as_str(), "Chunks" | "ChunksExact" | "Windows") {
            let s = s.clone();
            let n = e.as_int(&a.get(1).cloned().unwrap_or(V::Undef));
            let mut r = vec![];
            let cond = if name == "Chunks" { F::lt(&Lin::k(0), &s.len) } else { F::le(&n, &s.len) };
            let (y, no) = e.fork2(&st, &cond);
            if let Some(z) = no {
                r.push((z, None));
            }
            if let Some(z) = y {
                let mut opts = vec![];
                if name == "Chunks" {
                    let (f, sh) = e.fork2(&z, &F::le(&n, &s.len));
                    if let Some(f) = f {
                        opts.push((f, n.clone()));
                    }
                    if let Some(sh) = sh {
                        opts.push((sh, s.len.clone()));
                    }
                } else {
                    opts.push((z, n.clone()));
                }
                for (mut z, take) in opts {
                    let step = if name == "Windows" { Lin::k(1) } else { take.clone() };
                    let (lo, rest) = if back { (s.len.sub(&take), Lin::k(0)) } else { (Lin::k(0), step.clone()) };
                    let item = e.subslice(&z, &s, &lo, &lo.add(&take));
                    let item = match item {
                        V::Slice(x) => V::Slice(Rc::new(SliceV { loc: None, ..(*x).clone() })),
                        x => x,
                    };
                    let hi = if back { s.len.sub(&step) } else { s.len.clone() };
                    let ns = e.subslice(&z, &s, &rest, &hi);
                    e.mem.write(&mut z, &fld(&p, 0), ns);
                    r.push((z, Some(item)));
                }
            }
            return r;
        }
        // path components: the kinds other than a plain name are counted
        let c = e.mem.slice_content(&st, s);
        let mut r = vec![];
        let nbad = e.as_int(&a.get(1).cloned().unwrap_or(V::int(1)));
        let mut z = st.clone();
        let an = ranged(app("allnormal", vec![c]), (0, 1));
        let ok = if z.implies(&F::eq(&nbad, &Lin::k(0))) { z.assume(&F::Eq(Lin::atom(an).addc(-1))) } else { true };
        // how many there are is not known, only that they come to an end
        let left = a.get(2).map(|v| e.as_int(v));
        let ok = ok && left.as_ref().map_or(true, |l| z.assume(&F::Eq(l.clone())));
        if ok {
            r.push((z, None));
        }
        if let Some(l) = &left {
            if !st.assume(&F::le(&Lin::k(1), l)) {
                return r;
            }
            e.mem.write(&mut st, &fld(&p, 2), V::Int(l.addc(-1)));
        }
        if k == "std::path::Iter" {
            let item = e.view(fresh("component"));
            e.mem.write(&mut st, &fld(&p, 1), V::int(1));
            r.push((st, Some(item)));
            return r;
        }
        let cty = e.prog.by_s.iter().find(|(s, _)| s.starts_with("std::path::Component<")).map(|x| *x.1);
        let vs: Vec<(u32, String)> = match cty.and_then(|t| e.prog.variants(t).cloned()) {
            Some(v) => v.iter().enumerate().map(|(i, x)| (i as u32, x.name.clone())).collect(),
            None => vec![],
        };
        for (i, n) in vs {
            if n == "Prefix" {
                continue; // not on this platform
            }
            let mut z = st.clone();
            let fs = if n == "Normal" {
                vec![e.view(app("component", vec![fresh("name")]))]
            } else {
                vec![]
            };
            if n != "Normal" {
                e.mem.write(&mut z, &fld(&p, 1), V::int(1));
            }
            r.push((z, Some(V::adt(cty.unwrap(), i, fs))));
        }
        return r;
    }
    if k == "std::iter::StepBy" && !back {
        let inner = a.first().cloned().unwrap_or(V::Undef);
        let step = a.get(1).and_then(|n| st.fx.norm(&e.as_int(n)).is_const());
        if let (Some(n), "std::ops::Range" | "std::ops::RangeFrom") = (step, kind_of(e, &inner).as_str()) {
            let q = fld(&p, 0);
            let mut outs = next(e, st, &q, false);
            for (z, o) in outs.iter_mut() {
                if let Some(V::Int(l)) = o {
                    e.mem.write(z, &fld(&q, 0), V::Int(l.addc(n)));
                }
            }
            return outs;
        }
    }
    match k.as_str() {
        "std::ops::Range" | "std::ops::RangeInclusive" | "std::ops::RangeFrom" | "std::range::Range" => {
            let v2 = match &v {
                V::Opq(..) => e.mem.expand(&v, 0),
                x => x.clone(),
            };
            let f = match &v2 {
                V::Adt(a) => a.f.clone(),
                _ => vec![],
            };
            let lo = e.as_int(&f.first().cloned().unwrap_or(V::Undef));
            let hi = if k.ends_with("RangeFrom") { Lin::k(MAXLEN) } else { e.as_int(&f.get(1).cloned().unwrap_or(V::Undef)) };
            let lo = st.fx.norm(&lo);
            let hi = st.fx.norm(&hi);
            e.mem.write(&mut st, &p, v2.clone());
            let incl = k.ends_with("RangeInclusive");
            let cond = if incl { F::le(&lo, &hi) } else { F::lt(&lo, &hi) };
            let done = incl && !matches!(f.get(2), Some(V::Bool(F::F)) | None);
            let mut r = vec![];
            if done {
                return vec![(st, None)];
            }
            let (y, n) = e.fork2(&st, &cond);
            if let Some(z) = n {
                r.push((z, None));
            }
            if let Some(mut z) = y {
                if back {
                    let x = if incl { hi.clone() } else { hi.addc(-1) };
                    e.mem.write(&mut z, &fld(&p, 1), V::Int(hi.addc(-1)));
                    r.push((z, Some(V::Int(x))));
                } else {
                    // an inclusive range ends without stepping past its bound; the abstract
                    // start may do so
                    e.mem.write(&mut z, &fld(&p, 0), V::Int(lo.addc(1)));
                    r.push((z, Some(V::Int(lo))));
                }
            }
            r
        }
        "std::fs::ReadDir" | "fs_err::ReadDir" => {
            let dt = match &v {
                V::Opq(t, _) => *t,
                _ => fresh("dir"),
            };
            let ip = if k.starts_with("fs_err") { "std::result::Result<fs_err::DirEntry, std::io::Error>" } else { "std::result::Result<std::fs::DirEntry, std::io::Error>" };
            let ity = e.prog.by_s.get(ip).cloned().unwrap_or(X);
            let mut r = vec![];
            let mut z = st.clone();
            e.emit(&mut z, "dir_end", vec![v.clone()], "");
            r.push((z, None));
            let ent = V::Opq(app("direntry", vec![dt, fresh("ent")]), targ(e, ity, 0));
            let mut z = st.clone();
            e.emit(&mut z, "dir_entry", vec![ent.clone(), v.clone()], "");
            e.emit(&mut z, "ok", vec![ent.clone(), v.clone()], "dir_next");
            r.push((z, Some(okv(ity, ent))));
            let et = targ(e, ity, 1);
            let er = e.mem.fresh("err", et);
            e.emit(&mut st, "err", vec![er.clone(), v.clone()], "dir_next");
            r.push((st, Some(errv(ity, er))));
            r.retain(|x| !x.0.fx.bot);
            r
        }
        "dashmap::iter::Iter" | "dashmap::iter::IterMut" | "dashmap::iter::OwningIter" => crate::mio::map_next(e, st, &v),
        "std::option::IntoIter" | "std::option::Iter" | "std::iter::Once" => {
            let cur = a.first().cloned().unwrap_or(V::Undef);
            if cur.is_undef() {
                return vec![(st, None)];
            }
            let mut r = vec![];
            for (mut z, o) in e.cases(&st, &cur) {
                e.mem.write(&mut z, &fld(&p, 0), V::Undef);
                r.push((z, if o.0 == 1 { o.1.first().cloned() } else { None }));
            }
            r
        }
        "std::iter::Empty" => vec![(st, None)],
        "std::iter::Repeat" => {
            let x = a.first().cloned().unwrap_or(V::Undef);
            vec![(st, Some(x))]
        }
        "std::iter::Map" | "std::iter::Inspect" => {
            let f = V::Ref(fld(&p, 1));
            let mut r = vec![];
            for (mut z, o) in next(e, st, &fld(&p, 0), back) {
                match o {
                    None => r.push((z, None)),
                    Some(x) => {
                        if name == "Inspect" {
                            let rf = e.mem.temp_ref(&mut z, x.clone(), X);
                            for (w, _) in e.call_value(z, &f, vec![rf], None) {
                                r.push((w, Some(x.clone())));
                            }
                        } else {
                            for (w, y) in e.call_value(z, &f, vec![x], None) {
                                r.push((w, Some(y)));
                            }
                        }
                    }
                }
            }
            r
        }
        "std::iter::FromFn" => {
            let mut r = vec![];
            for (z, y) in e.call_value(st, &V::Ref(fld(&p, 0)), vec![], None) {
                for (w, c) in e.cases(&z, &y) {
                    r.push((w, if c.0 == 1 { Some(c.1.first().cloned().unwrap_or(V::Undef)) } else { None }));
                }
            }
            r
        }
        "std::iter::Rev" => next(e, st, &fld(&p, 0), !back),
        "std::iter::Cloned" | "std::iter::Copied" => {
            let mut r = vec![];
            for (mut z, o) in next(e, st, &fld(&p, 0), back) {
                let o = o.map(|x| e.mem.deref_all(&mut z, &x));
                r.push((z, o));
            }
            r
        }
        "std::iter::Enumerate" => {
            let i = e.as_int(&a.get(1).cloned().unwrap_or(V::Undef));
            let mut r = vec![];
            for (mut z, o) in next(e, st, &fld(&p, 0), back) {
                let o = match o {
                    None => None,
                    Some(x) => {
                        e.mem.write(&mut z, &fld(&p, 1), V::Int(i.addc(1)));
                        z.assume(&F::le(&i, &Lin::k(MAXLEN)));
                        let i = if back { ulen("index") } else { i.clone() };
                        Some(tuple(vec![V::Int(i), x]))
                    }
                };
                r.push((z, o));
            }
            r
        }
        "std::iter::Take" => {
            let n = e.as_int(&a.get(1).cloned().unwrap_or(V::Undef));
            let (y, no) = e.fork2(&st, &F::lt(&Lin::k(0), &n));
            let mut r = vec![];
            if let Some(z) = no {
                r.push((z, None));
            }
            if let Some(mut z) = y {
                e.mem.write(&mut z, &fld(&p, 1), V::Int(n.addc(-1)));
                r.extend(next(e, z, &fld(&p, 0), back));
            }
            r
        }
        "std::iter::Fuse" | "std::iter::Peekable" if a.len() == 1 => next(e, st, &fld(&p, 0), back),
        "std::iter::Peekable" => {
            let pk = a.get(1).cloned().unwrap_or(V::Undef);
            if pk.is_undef() {
                return next(e, st, &fld(&p, 0), back);
            }
            e.mem.write(&mut st, &fld(&p, 1), V::Undef);
            let o = unopt(pk);
            vec![(st, o)]
        }
        "std::iter::Zip" => {
            let mut r = vec![];
            for (z, o) in next(e, st, &fld(&p, 0), back) {
                match o {
                    None => r.push((z, None)),
                    Some(x) => {
                        for (w, q) in next(e, z, &fld(&p, 1), back) {
                            r.push((w, q.map(|y| tuple(vec![x.clone(), y]))));
                        }
                    }
                }
            }
            r
        }
        "std::iter::Chain" => {
            let (f, s) = if back { (1, 0) } else { (0, 1) };
            let mut r = vec![];
            let first_done = matches!(a.get(2), Some(V::Bool(F::T)));
            let mut rest = vec![];
            if first_done {
                rest.push(st);
            } else {
                for (mut z, o) in next(e, st, &fld(&p, f), back) {
                    match o {
                        Some(x) => r.push((z, Some(x))),
                        None => {
                            e.mem.write(&mut z, &fld(&p, 2), V::Bool(F::T));
                            rest.push(z);
                        }
                    }
                }
            }
            for z in rest {
                r.extend(next(e, z, &fld(&p, s), back));
            }
            r
        }
        "std::iter::TakeWhile" | "std::iter::MapWhile" => {
            if matches!(a.get(2), Some(V::Bool(F::T))) {
                return vec![(st, None)];
            }
            let f = V::Ref(fld(&p, 1));
            let mut r = vec![];
            for (mut z, o) in next(e, st, &fld(&p, 0), back) {
                match o {
                    None => r.push((z, None)),
                    Some(x) if name == "TakeWhile" => {
                        let rf = e.mem.temp_ref(&mut z, x.clone(), X);
                        for (w, b) in e.call_value(z, &f, vec![rf], None) {
                            for (mut w, b) in truth(e, w, &b) {
                                if b {
                                    r.push((w, Some(x.clone())));
                                } else {
                                    e.mem.write(&mut w, &fld(&p, 2), V::Bool(F::T));
                                    r.push((w, None));
                                }
                            }
                        }
                    }
                    Some(x) => {
                        for (w, o) in e.call_value(z, &f, vec![x], None) {
                            for (w, c) in e.cases(&w, &o) {
                                r.push((w, if c.0 == 1 { c.1.first().cloned() } else { None }));
                            }
                        }
                    }
                }
            }
            r
        }
        "std::iter::Filter" | "std::iter::FilterMap" | "std::iter::SkipWhile" | "std::iter::Skip" | "std::iter::FlatMap" | "std::iter::Flatten" | "std::iter::StepBy" => {
            let p2 = p.clone();
            let outs = e.native_loop(&format!("iter {}", name), st, vec![], &mut |e, st| next_looping(e, st, &p2, &name, back));
            outs.into_iter().map(|(s, v, _)| (s, unopt(v))).collect()
        }
        _ => {
            // an iterator that is not modelled
            let nm = format!("iterator {}", if k.is_empty() { format!("{:?}", v).chars().take(60).collect::<String>() } else { k.clone() });
            let mut r = vec![(st.clone(), None)];
            for (z, _) in e.unknown_call(st, &nm, vec![], None) {
                r.push((z, Some(V::Undef)));
            }
            r
        }
    }
}
fn next_looping(e: &mut Engine, mut st: State, p: &Ptr, name: &str, back: bool) -> Vec<(State, Ctl)> {
    let f = V::Ref(fld(p, 1));
    let mut r = vec![];
    match name {
        "Filter" => {
            for (mut z, o) in next(e, st, &fld(p, 0), back) {
                match o {
                    None => r.push((z, Ctl::Exit(opt(None)))),
                    Some(x) => {
                        let rf = e.mem.temp_ref(&mut z, x.clone(), X);
                        for (w, b) in e.call_value(z, &f, vec![rf], None) {
                            for (w, b) in truth(e, w, &b) {
                                r.push((w, if b { Ctl::Exit(opt(Some(x.clone()))) } else { Ctl::Cont }));
                            }
                        }
                    }
                }
            }
        }
        "FilterMap" => {
            for (z, o) in next(e, st, &fld(p, 0), back) {
                match o {
                    None => r.push((z, Ctl::Exit(opt(None)))),
                    Some(x) => {
                        for (w, o) in e.call_value(z, &f, vec![x], None) {
                            for (w, c) in e.cases(&w, &o) {
                                r.push((w, if c.0 == 1 { Ctl::Exit(opt(c.1.first().cloned())) } else { Ctl::Cont }));
                            }
                        }
                    }
                }
            }
        }
        "SkipWhile" => {
            let started = e.mem.read(&mut st, &fld(p, 2)) == V::Bool(F::T);
            for (mut z, o) in next(e, st, &fld(p, 0), back) {
                match o {
                    None => r.push((z, Ctl::Exit(opt(None)))),
                    Some(x) if started => r.push((z, Ctl::Exit(opt(Some(x))))),
                    Some(x) => {
                        let rf = e.mem.temp_ref(&mut z, x.clone(), X);
                        for (w, b) in e.call_value(z, &f, vec![rf], None) {
                            for (mut w, b) in truth(e, w, &b) {
                                if b {
                                    r.push((w, Ctl::Cont));
                                } else {
                                    e.mem.write(&mut w, &fld(p, 2), V::Bool(F::T));
                                    r.push((w, Ctl::Exit(opt(Some(x.clone())))));
                                }
                            }
                        }
                    }
                }
            }
        }
        "Skip" | "StepBy" => {
            let n = e.mem.read(&mut st, &fld(p, 1));
            let n = e.as_int(&n);
            let (y, no) = if name == "Skip" { e.fork2(&st, &F::lt(&Lin::k(0), &n)) } else { (Some(st.clone()), Some(st.clone())) };
            if let Some(mut z) = y {
                if name == "Skip" {
                    e.mem.write(&mut z, &fld(p, 1), V::Int(n.addc(-1)));
                }
                for (z, o) in next(e, z, &fld(p, 0), back) {
                    r.push((z, if o.is_none() { Ctl::Exit(opt(None)) } else { Ctl::Cont }));
                }
            }
            if let Some(z) = no {
                for (z, o) in next(e, z, &fld(p, 0), back) {
                    r.push((z, Ctl::Exit(opt(o))));
                }
            }
        }
        _ => {
            // FlatMap, Flatten: field 2 holds the current inner iterator
            let front = e.mem.read(&mut st, &fld(p, 2));
            if !front.is_undef() {
                for (mut z, o) in next(e, st, &fld(p, 2), back) {
                    match o {
                        Some(x) => r.push((z, Ctl::Exit(opt(Some(x))))),
                        None => {
                            e.mem.write(&mut z, &fld(p, 2), V::Undef);
                            r.push((z, Ctl::Cont));
                        }
                    }
                }
                return r;
            }
            for (z, o) in next(e, st, &fld(p, 0), back) {
                match o {
                    None => r.push((z, Ctl::Exit(opt(None)))),
                    Some(x) => {
                        let ys = if name == "Flatten" { vec![(z, x)] } else { e.call_value(z, &f, vec![x], None) };
                        for (mut w, y) in ys {
                            let it = inner_iter(e, &mut w, &y);
                            match it {
                                Some(its) => {
                                    for (mut w, it) in its {
                                        e.mem.write(&mut w, &fld(p, 2), it);
                                        r.push((w, Ctl::Cont));
                                    }
                                }
                                None => {
                                    let nm = "flattened value".to_string();
                                    for (w, _) in e.unknown_call(w, &nm, vec![y.clone()], None) {
                                        r.push((w.clone(), Ctl::Cont));
                                        r.push((w, Ctl::Exit(opt(Some(V::Undef)))));
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    }
    r
}
/// The iterator of a value that is itself iterated (by value).
fn inner_iter(e: &mut Engine, st: &mut State, y: &V) -> Option<Vec<(State, V)>> {
    let k = kind_of(e, y);
    if is_iter_path(&k) {
        return Some(vec![(st.clone(), y.clone())]);
    }
    match y {
        V::Seq(_) => {
            let s = e.sl(st, y);
            let s = Rc::new(SliceV { loc: None, ..(*s).clone() });
            Some(vec![(st.clone(), V::adt(X, 0, vec![V::Slice(s), V::Bool(F::T)]))])
        }
        V::Slice(_) => Some(vec![(st.clone(), V::adt(X, 0, vec![y.clone(), V::Bool(F::F)]))]),
        V::Ref(p) => {
            let x = e.mem.read(st, &p.clone());
            match x {
                V::Seq(_) => {
                    let s = e.sl(st, y);
                    Some(vec![(st.clone(), V::adt(X, 0, vec![V::Slice(s), V::Bool(F::F)]))])
                }
                _ => None,
            }
        }
        _ => {
            let (some_v, _) = match k.as_str() {
                "std::option::Option" => (1, 0),
                "std::result::Result" => (0, 1),
                _ => return None,
            };
            let mut r = vec![];
            for (z, c) in e.cases(st, y) {
                let s = if c.0 == some_v {
                    // one element
                    let v = c.1.first().cloned().unwrap_or(V::Undef);
                    let ty = e.prog.by_s.iter().find(|(s, _)| s.starts_with("std::option::IntoIter<")).map(|x| *x.1);
                    match ty {
                        Some(t) => V::adt(t, 0, vec![opt(Some(v))]),
                        None => {
                            let q = SeqV { c: fresh("one"), len: Lin::k(1), ety: X, tpl: Tpl::V(Rc::new(TplV { v, gs: vec![], fs: vec![] })), q: vec![] };
                            V::adt(X, 0, vec![slice_v(Rc::new(q), None), V::Bool(F::T)])
                        }
                    }
                } else {
                    let q = SeqV { c: lit(b""), len: Lin::k(0), ety: X, tpl: Tpl::Bot, q: vec![] };
                    V::adt(X, 0, vec![slice_v(Rc::new(q), None), V::Bool(F::T)])
                };
                r.push((z, s));
            }
            Some(r)
        }
    }
}
impl Engine {
    /// The variants an enum value may have, with its fields.
    pub fn cases(&mut self, st: &State, v: &V) -> Vec<(State, (u32, Vec<V>))> {
        match v {
            V::Adt(a) => vec![(st.clone(), (a.var, a.f.clone()))],
            V::Opq(t, ty) => {
                let vs = match self.prog.variants(*ty) {
                    Some(v) => v.clone(),
                    None => return vec![(st.clone(), (0, vec![V::Undef])), (st.clone(), (1, vec![V::Undef]))],
                };
                let d = Lin::atom(app("discr", vec![*t]));
                let mut r = vec![];
                for (i, x) in vs.iter().enumerate() {
                    let mut z = st.clone();
                    if z.assume(&F::eq0(z.fx.norm(&d).addc(-x.discr))) {
                        let f = match self.mem.expand(v, i as u32) {
                            V::Adt(a) => a.f.clone(),
                            _ => vec![],
                        };
                        r.push((z, (i as u32, f)));
                    }
                }
                r
            }
            _ => vec![(st.clone(), (0, vec![V::Undef])), (st.clone(), (1, vec![V::Undef]))],
        }
    }
    /// Runs an iterator to its end or until the body leaves. `vars` are extra loop variables
    /// (in slots 1..); the body sees each item.
    pub fn drive(&mut self, name: &str, st: State, it: V, vars: Vec<(V, Option<Ty>)>, back: bool, body: &mut dyn FnMut(&mut Engine, State, u32, Option<V>) -> Vec<(State, Ctl)>) -> Vec<(State, V, Vec<V>)> {
        self.unroll_next = self.few(&st, &it).map_or(0, |n| n + 2);
        let mut vs = vec![(it, None)];
        vs.extend(vars);
        self.native_loop(name, st, vs, &mut |e, s| {
            let d = s.depth();
            let mut r = vec![];
            for (z, o) in next(e, s, &Ptr::local(d, 0), back) {
                r.extend(body(e, z, d, o));
            }
            r
        })
    }
}
fn slot(d: u32, i: u32) -> Ptr {
    Ptr::local(d, i)
}
fn bump(e: &mut Engine, st: &mut State, d: u32, i: u32) -> Lin {
    let v = e.mem.read(st, &slot(d, i));
    let n = e.as_int(&v);
    st.set_local(d, i, V::Int(n.addc(1)));
    n
}
fn bumped(e: &mut Engine, mut st: State, d: u32, i: u32) -> State {
    bump(e, &mut st, d, i);
    st
}
fn is_byte_map(e: &mut Engine, st: &mut State, it: &V) -> Option<(V, Rc<SliceV>, V)> {
    // map over the bytes of a sequence
    if kind_of(e, it) != "std::iter::Map" {
        return None;
    }
    if let V::Adt(a) = it {
        let mut inner = a.f[0].clone();
        for _ in 0..2 {
            let k = kind_of(e, &inner);
            if k == "std::iter::Copied" || k == "std::iter::Cloned" {
                if let V::Adt(b) = &inner.clone() {
                    inner = b.f[0].clone();
                }
            }
        }
        if let V::Adt(b) = &inner {
            if let Some(V::Slice(s)) = b.f.first() {
                if matches!(e.prog.k(s.seq.ety), TK::Int { .. }) {
                    let _ = st;
                    return Some((inner.clone(), s.clone(), a.f[1].clone()));
                }
            }
        }
    }
    None
}
fn fn_name(e: &Engine, f: &V) -> String {
    match f {
        V::Adt(a) if a.ty != X => match e.prog.k(a.ty) {
            TK::Closure { inst, .. } => e.prog.fns[*inst].path.clone(),
            _ => "?".into(),
        },
        V::Fnv(t) => e.prog.ts(*t).to_string(),
        _ => "?".into(),
    }
}
/// Collects an iterator into a sequence value of type `ty`.
fn collect_seq(e: &mut Engine, st: State, it: V, ty: Ty, wrap: Option<Ty>) -> Outs {
    let ety = e.mem.seq_elem(ty).unwrap_or(X);
    let mut st = st;
    let bm = is_byte_map(e, &mut st, &it);
    let int = matches!(e.prog.k(ety), TK::Int { .. });
    let seq0 = SeqV { c: lit(b""), len: Lin::k(0), ety, tpl: if int && !e.mem.int_tpl { Tpl::Any } else { Tpl::Bot }, q: vec![] };
    // how often a range is gone through may be given by a number alone
    let counted = match &it {
        V::Adt(a) => {
            let t = e.prog.ts(a.ty);
            t.contains("ops::Range") || t.contains("Repeat")
        }
        _ => false,
    };
    let cname = fresh("collected");
    let outs = e.drive("collect", st, it, vec![(V::Seq(Rc::new(seq0)), Some(ty))], false, &mut |e, mut z, d, o| match o {
        None => vec![(z, Ctl::Exit(opt(None)))],
        Some(x) => {
            let mut r = vec![];
            let cases: Vec<(State, Result<V, V>)> = match wrap {
                None => vec![(z.clone(), Ok(x))],
                Some(wty) => {
                    let isres = e.prog.adt_path(wty) == "std::result::Result";
                    e.cases(&z, &x).into_iter().map(|(w, c)| {
                        let good = if isres { c.0 == 0 } else { c.0 == 1 };
                        let v = c.1.first().cloned().unwrap_or(V::Undef);
                        (w, if good { Ok(v) } else { Err(v) })
                    }).collect()
                }
            };
            for (mut w, c) in cases {
                match c {
                    Err(v) => r.push((w, Ctl::Exit(opt(Some(v))))),
                    Ok(v) => {
                        let cur = e.mem.read(&mut w, &slot(d, 1));
                        if let V::Seq(q) = cur {
                            let tpl = if int && !e.mem.int_tpl { Tpl::Any } else { join::push_tpl(&mut e.mem, &w, &q, &v) };
                            let nl = q.len.addc(1);
                            let n = SeqV { c: cname, len: nl.clone(), ety, tpl, q: vec![] };
                            w.assume(&F::le(&nl, &Lin::k(MAXLEN)));
                            e.emit(&mut w, "collected", vec![v], "");
                            w.set_local(d, 1, V::Seq(Rc::new(n)));
                        }
                        r.push((w, Ctl::Cont));
                    }
                }
            }
            let _ = &mut z;
            r
        }
    });
    let mut r = vec![];
    for (mut z, v, vars) in outs {
        match unopt(v) {
            None => {
                let mut q = match &vars[1] {
                    V::Seq(q) => (**q).clone(),
                    _ => continue,
                };
                if let Some((_, s, f)) = &bm {
                    let c = e.mem.slice_content(&z, s);
                    let n = lit(fn_name(e, f).as_bytes());
                    q.c = app("bytemap", vec![c, n]);
                    if int {
                        z.assume(&F::eq(&q.len, &s.len));
                    }
                } else if q.c == cname {
                    q.c = fresh("collected");
                }
                if counted {
                    e.emit(&mut z, "alloc", vec![V::Int(q.len.clone()), V::int(0)], "collect");
                }
                let v = V::Seq(Rc::new(q));
                r.push((
                    z,
                    match wrap {
                        None => v,
                        Some(w) => {
                            let isres = e.prog.adt_path(w) == "std::result::Result";
                            V::adt(w, if isres { 0 } else { 1 }, vec![v])
                        }
                    },
                ));
            }
            Some(err) => {
                let w = wrap.unwrap_or(X);
                let isres = e.prog.adt_path(w) == "std::result::Result";
                r.push((z, if isres { V::adt(w, 1, vec![err]) } else { V::adt(w, 0, vec![]) }));
            }
        }
    }
    r
}
fn collect(e: &mut Engine, st: State, it: V, rty: Ty) -> Option<Outs> {
    if e.mem.seq_elem(rty).is_some() {
        return Some(collect_seq(e, st, it, rty, None));
    }
    let p = e.prog.adt_path(rty).to_string();
    if p == "std::result::Result" || p == "std::option::Option" {
        let inner = targ(e, rty, 0);
        if e.mem.seq_elem(inner).is_some() {
            return Some(collect_seq(e, st, it, inner, Some(rty)));
        }
    }
    // any other collection: the items are produced, the result is arbitrary
    let outs = e.drive("collect", st, it, vec![], false, &mut |_e, z, _d, o| vec![(z, if o.is_none() { Ctl::Exit(opt(None)) } else { Ctl::Cont })]);
    Some(outs.into_iter().map(|(z, _, _)| {
        let v = e.mem.fresh("collected", rty);
        (z, v)
    }).collect())
}
pub fn iters(e: &mut Engine, st: &mut State, d: &str, p: &str, a: &[V], tys: &[Ty], rty: Ty) -> Option<Outs> {
    let m = last(d);
    let t0 = tys.first().cloned().unwrap_or(X);
    let k0 = path_of(e, t0);
    // making iterators
    if d == "std::iter::IntoIterator::into_iter" {
        let it = as_iter(e, st, &a[0], t0, rty);
        if let V::Adt(x) = &it {
            if x.ty == rty || is_iter_path(&k0) {
                return one(st, it);
            }
        }
        if is_iter_path(&k0) || matches!(e.prog.k(rty), TK::Ref(..)) || t0 == rty {
            return one(st, it);
        }
        return None;
    }
    if (p.starts_with("core::slice::<impl [T]>::") || p.starts_with("core::str::<impl str>::") || p.starts_with("std::vec::Vec") || p.starts_with("bstr::ByteSlice")) && !a.is_empty() {
        match last(p) {
            "iter" | "iter_mut" | "bytes" => {
                let s = e.sl(st, &a[0]);
                let owned = last(p) == "bytes";
                return one(st, V::adt(rty, 0, vec![V::Slice(s), V::Bool(F::of(owned))]));
            }
            "chunks" | "chunks_exact" | "windows" => {
                let s = e.sl(st, &a[0]);
                let n = e.int_arg(st, &a[1]);
                e.panic_check(st, "chunk size is not zero", &F::lt(&Lin::k(0), &n));
                return one(st, V::adt(rty, 0, vec![V::Slice(s), V::Int(n)]));
            }
            "drain" => {
                let s = e.sl(st, &a[0]);
                let len = s.len.clone();
                let (lo, hi) = e.range_arg(st, &a[1], tys[1], &len)?;
                let c = F::and(&F::le(&lo, &hi), &F::le(&hi, &len));
                e.panic_check(st, "drain range in bounds", &c);
                let v = e.subslice(st, &s, &lo, &hi);
                let v = match v {
                    V::Slice(x) => V::Slice(Rc::new(SliceV { loc: None, ..(*x).clone() })),
                    x => x,
                };
                let q = e.seq_at(st, &a[0]);
                let nl = st.fx.norm(&len.sub(&hi.sub(&lo)));
                let c = if st.fx.norm(&lo).is_const() == Some(0) { sl(q.c, &hi, &nl) } else { fresh("drained") };
                e.put_seq(st, &a[0], SeqV { c, len: nl, q: vec![], ..q });
                return one(st, V::adt(rty, 0, vec![v, V::Bool(F::T)]));
            }
            _ => {}
        }
    }
    if p.starts_with("smallvec::SmallVec") && (last(p) == "iter" || last(p) == "iter_mut") {
        let s = e.sl(st, &a[0]);
        return one(st, V::adt(rty, 0, vec![V::Slice(s), V::Bool(F::F)]));
    }
    if p.contains("RangeInclusive") && last(p) == "new" && a.len() == 2 {
        return one(st, V::adt(rty, 0, vec![a[0].clone(), a[1].clone(), V::Bool(F::F)]));
    }
    match d {
        "std::iter::once" => return one(st, V::adt(rty, 0, vec![opt(Some(a[0].clone()))])),
        "std::iter::from_fn" => return one(st, V::adt(rty, 0, vec![a[0].clone()])),
        "std::iter::empty" => return one(st, V::adt(rty, 0, vec![])),
        "std::iter::repeat" => return one(st, V::adt(rty, 0, vec![a[0].clone()])),
        "std::option::Option::<T>::iter" => {
            let v = e.mem.deref_all(st, &a[0]);
            let mut r = vec![];
            for (mut z, c) in e.cases(st, &v) {
                let o = if c.0 == 1 {
                    let x = c.1.first().cloned().unwrap_or(V::Undef);
                    let rf = e.mem.temp_ref(&mut z, x, X);
                    opt(Some(rf))
                } else {
                    opt(None)
                };
                r.push((z, V::adt(rty, 0, vec![o])));
            }
            return Some(r);
        }
        "std::iter::FromIterator::from_iter" => {
            let ity = t0;
            let it = as_iter(e, st, &a[0], ity, X);
            let it = if let V::Adt(x) = &it { if x.ty == X { V::Adt(x.clone()) } else { it } } else { it };
            return collect(e, st.clone(), it, rty);
        }
        "std::iter::Extend::extend" => {
            let q0 = e.seq_at(st, &a[0]);
            // a whole list: the same as appending it
            if let (V::Seq(_), true) = (&a[1], !matches!(e.prog.k(q0.ety), TK::Int { .. })) {
                let src = e.seq_at(st, &a[1]);
                let q2 = crate::models::appended(e, st, &q0, &src, p);
                e.put_seq(st, &a[0], q2);
                return one(st, unit(e, rty));
            }
            let it = as_iter(e, st, &a[1], tys[1], X);
            // bytes of a sequence: the same as appending the slice
            if let V::Adt(x) = &it {
                if let (Some(V::Slice(src)), TK::Int { .. }) = (x.f.first(), e.prog.k(q0.ety)) {
                    let src = src.clone();
                    e.emit(st, "extend", vec![a[0].clone(), V::Slice(src.clone())], p);
                    let cc = app("cat", vec![q0.c, e.mem.slice_content(st, &src)]);
                    let nl = st.fx.norm(&q0.len.add(&src.len));
                    st.assume(&F::le(&nl, &Lin::k(MAXLEN)));
                    e.put_seq(st, &a[0], SeqV { c: cc, len: nl, q: vec![], ..q0 });
                    return one(st, unit(e, rty));
                }
            }
            let target = a[0].clone();
            let int = matches!(e.prog.k(q0.ety), TK::Int { .. });
            let outs = e.drive("extend", st.clone(), it, vec![], false, &mut |e, mut z, _d, o| match o {
                None => vec![(z, Ctl::Exit(opt(None)))],
                Some(x) => {
                    let x = if int { e.mem.deref_all(&mut z, &x) } else { x };
                    let q = e.seq_at(&mut z, &target);
                    let tpl = if int && !e.mem.int_tpl { Tpl::Any } else { join::push_tpl(&mut e.mem, &z, &q, &x) };
                    let nl = q.len.addc(1);
                    z.assume(&F::le(&nl, &Lin::k(MAXLEN)));
                    e.emit(&mut z, "collected", vec![x.clone()], "");
                    e.put_seq(&mut z, &target, SeqV { c: fresh("pushed"), len: nl, q: vec![], tpl, ety: q.ety });
                    vec![(z, Ctl::Cont)]
                }
            });
            let u = unit(e, rty);
            return Some(outs.into_iter().map(|(z, _, _)| (z, u.clone())).collect());
        }
        "std::iter::ExactSizeIterator::len" => {
            let v = e.mem.deref_all(st, &a[0]);
            if let V::Adt(x) = &v {
                let mut cur = x.clone();
                for _ in 0..4 {
                    match cur.f.first() {
                        Some(V::Slice(s)) => return one(st, V::Int(s.len.clone())),
                        Some(V::Adt(y)) => cur = y.clone(),
                        _ => break,
                    }
                }
                if cur.f.len() >= 2 && k0.contains("Range") {
                    let (lo, hi) = (e.as_int(&cur.f[0]), e.as_int(&cur.f[1]));
                    let mut r = vec![];
                    let (y, n) = e.fork2(st, &F::le(&lo, &hi));
                    if let Some(z) = y {
                        r.push((z, V::Int(hi.sub(&lo))));
                    }
                    if let Some(z) = n {
                        r.push((z, V::int(0)));
                    }
                    return Some(r);
                }
            }
            return one(st, V::Int(ulen("iterlen")));
        }
        _ => {}
    }
    let is_it = d.starts_with("std::iter::Iterator::") || d.starts_with("std::iter::DoubleEndedIterator::") || d.starts_with("std::iter::Peekable::");
    if !is_it {
        if d == "std::slice::Iter::<'a, T>::as_slice" {
            if let V::Adt(x) = e.mem.deref_all(st, &a[0]) {
                return one(st, x.f[0].clone());
            }
        }
        return None;
    }
    // iterators implemented by the analysed crate are run through their own code by the caller;
    // adapters over them would not be known
    let it = a[0].clone();
    let adapter = |extra: Vec<V>| -> Option<Outs> {
        let mut f = vec![a[0].clone()];
        f.extend(extra);
        Some(vec![(st.clone(), V::adt(rty, 0, f))])
    };
    match m {
        "map" | "inspect" | "filter" | "filter_map" => return adapter(vec![a[1].clone()]),
        "take_while" | "skip_while" | "map_while" => return adapter(vec![a[1].clone(), V::Bool(F::F)]),
        "rev" | "cloned" | "copied" | "fuse" => return adapter(vec![]),
        "peekable" => return adapter(vec![V::Undef]),
        "enumerate" => return adapter(vec![V::int(0)]),
        "take" | "skip" | "step_by" => {
            let n = e.int_arg(st, &a[1]);
            return Some(vec![(st.clone(), V::adt(rty, 0, vec![a[0].clone(), V::Int(n)]))]);
        }
        "flat_map" => return adapter(vec![a[1].clone(), V::Undef]),
        "flatten" => return adapter(vec![V::Undef, V::Undef]),
        "by_ref" => return one(st, it),
        "zip" | "chain" => {
            let other = as_iter(e, st, &a[1], tys[1], X);
            return Some(vec![(st.clone(), V::adt(rty, 0, vec![a[0].clone(), other, V::Bool(F::F)]))]);
        }
        "size_hint" => {
            let v = e.mem.fresh("hint", rty);
            return one(st, v);
        }
        _ => {}
    }
    let by_ref = matches!(e.prog.k(t0), TK::Ref(..));
    let wrapo = |o: Option<V>| match o {
        Some(v) => some(rty, v),
        None => none(rty),
    };
    match m {
        "next" | "next_back" | "peek" | "next_if" => {
            let p = match &it {
                V::Ref(p) => p.clone(),
                _ => return None,
            };
            // an iterator of the crate itself
            let v = e.mem.deref_all(st, &it);
            let k = kind_of(e, &v);
            if !is_iter_path(&k) && !matches!(&v, V::Adt(x) if x.ty == X) {
                return None;
            }
            if m == "next_if" {
                return None;
            }
            if m == "peek" {
                let mut q = p.clone();
                let mut v = e.mem.read(st, &q);
                while let V::Ref(x) = &v {
                    q = x.clone();
                    v = e.mem.read(st, &q);
                }
                let cur = e.mem.read(st, &fld(&q, 1));
                let outs = if cur.is_undef() { next(e, st.clone(), &fld(&q, 0), false) } else { vec![(st.clone(), unopt(cur))] };
                let mut r = vec![];
                for (mut z, o) in outs {
                    e.mem.write(&mut z, &fld(&q, 1), opt(o.clone()));
                    let o = o.map(|_| V::Ref(fld(&q, 1).push(Pj::F(1, 0, X))));
                    r.push((z, wrapo(o)));
                }
                return Some(r);
            }
            let r = next(e, st.clone(), &p, m == "next_back");
            return Some(r.into_iter().map(|(z, o)| (z, wrapo(o))).collect());
        }
        _ => {}
    }
    let _ = by_ref;
    let back = m.starts_with('r') && matches!(m, "rposition" | "rfind" | "rfold");
    let bool_exit = |z: State, b: bool| (z, Ctl::Exit(V::Bool(F::of(b))));
    match m {
        "collect" => collect(e, st.clone(), it, rty),
        "count" => {
            if let V::Adt(x) = &it {
                if let Some(V::Slice(s)) = x.f.first() {
                    if !matches!(kind_of(e, &it).as_str(), "std::path::Components") {
                        return one(st, V::Int(s.len.clone()));
                    }
                }
            }
            let outs = e.drive("count", st.clone(), it, vec![(V::int(0), Some(e.mem.usize_ty))], false, &mut |e, z, d, o| match o {
                None => {
                    let mut z = z;
                    let v = e.mem.read(&mut z, &slot(d, 1));
                    vec![(z, Ctl::Exit(v))]
                }
                Some(_) => vec![(bumped(e, z, d, 1), Ctl::Cont)],
            });
            Some(outs.into_iter().map(|(z, v, _)| (z, v)).collect())
        }
        "all" | "any" => {
            let want = m == "any";
            let outs = e.drive(m, st.clone(), it, vec![(a[1].clone(), None)], false, &mut |e, z, d, o| match o {
                None => vec![bool_exit(z, !want)],
                Some(x) => {
                    let mut r = vec![];
                    for (w, b) in e.call_value(z, &V::Ref(slot(d, 1)), vec![x], None) {
                        for (w, b) in truth(e, w, &b) {
                            r.push(if b == want { bool_exit(w, want) } else { (w, Ctl::Cont) });
                        }
                    }
                    r
                }
            });
            // the iterator behind a reference has advanced in place
            Some(outs.into_iter().map(|(z, v, _)| (z, v)).collect())
        }
        "position" | "rposition" => {
            if let (Some((s, k)), "position") = (byte_search(e, st, &it, &a[1]), m) {
                let cc = e.mem.slice_content(st, &s);
                let i = mk(sym("memchr"), vec![tl(&k), cc], Some((0, MAXLEN)));
                let has = app("has", vec![cc, tl(&k)]);
                let mut r = vec![];
                for (mut z, v) in e.fork_bool(st, has, &[F::lt(&lt(i), &s.len)]) {
                    if v == V::Bool(F::T) {
                        let el = lt(sel(s.seq.c, &z.fx.norm(&s.off.add(&lt(i))), Some((0, 255))));
                        z.assume(&F::eq(&el, &k));
                        e.emit(&mut z, "found", vec![V::Slice(s.clone()), V::Int(k.clone()), V::Int(lt(i))], m);
                        advance(e, &mut z, &it, &s, &lt(i).addc(1));
                        r.push((z, some(rty, V::Int(lt(i)))));
                    } else {
                        e.emit(&mut z, "absent", vec![V::Slice(s.clone()), V::Int(k.clone())], m);
                        advance(e, &mut z, &it, &s, &s.len.clone());
                        r.push((z, none(rty)));
                    }
                }
                return Some(r);
            }
            let bound = match e.mem.deref_all(st, &it) {
                V::Adt(x) => match x.f.first() {
                    Some(V::Slice(s)) => Some(s.len.clone()),
                    _ => None,
                },
                _ => None,
            };
            let outs = e.drive(m, st.clone(), it, vec![(a[1].clone(), None), (V::int(0), Some(e.mem.usize_ty))], back, &mut |e, z, d, o| match o {
                None => vec![(z, Ctl::Exit(opt(None)))],
                Some(x) => {
                    let mut r = vec![];
                    for (w, b) in e.call_value(z, &V::Ref(slot(d, 1)), vec![x], None) {
                        for (mut w, b) in truth(e, w, &b) {
                            if b {
                                let i = e.mem.read(&mut w, &slot(d, 2));
                                r.push((w, Ctl::Exit(opt(Some(i)))));
                            } else {
                                r.push((bumped(e, w, d, 2), Ctl::Cont));
                            }
                        }
                    }
                    r
                }
            });
            Some(
                outs.into_iter()
                    .map(|(mut z, v, _)| {
                        let o = unopt(v);
                        if let (Some(V::Int(i)), Some(n)) = (&o, &bound) {
                            z.assume(&F::lt(i, n));
                            z.assume(&F::le(&Lin::k(0), i));
                        }
                        (z, wrapo(o))
                    })
                    .collect(),
            )
        }
        "find" | "find_map" | "rfind" => {
            let outs = e.drive(m, st.clone(), it, vec![(a[1].clone(), None)], back, &mut |e, mut z, d, o| match o {
                None => vec![(z, Ctl::Exit(opt(None)))],
                Some(x) => {
                    let mut r = vec![];
                    if m == "find_map" {
                        for (w, y) in e.call_value(z, &V::Ref(slot(d, 1)), vec![x], None) {
                            for (w, c) in e.cases(&w, &y) {
                                r.push((w, if c.0 == 1 { Ctl::Exit(opt(c.1.first().cloned())) } else { Ctl::Cont }));
                            }
                        }
                        return r;
                    }
                    let rf = e.mem.temp_ref(&mut z, x.clone(), X);
                    for (w, b) in e.call_value(z, &V::Ref(slot(d, 1)), vec![rf], None) {
                        for (w, b) in truth(e, w, &b) {
                            r.push((w, if b { Ctl::Exit(opt(Some(x.clone()))) } else { Ctl::Cont }));
                        }
                    }
                    r
                }
            });
            Some(outs.into_iter().map(|(z, v, _)| (z, wrapo(unopt(v)))).collect())
        }
        "for_each" => {
            let outs = e.drive(m, st.clone(), it, vec![(a[1].clone(), None)], false, &mut |e, z, d, o| match o {
                None => vec![(z, Ctl::Exit(opt(None)))],
                Some(x) => e.call_value(z, &V::Ref(slot(d, 1)), vec![x], None).into_iter().map(|(w, _)| (w, Ctl::Cont)).collect(),
            });
            let u = unit(e, rty);
            Some(outs.into_iter().map(|(z, _, _)| (z, u.clone())).collect())
        }
        "try_for_each" | "try_fold" => {
            // Result-like accumulators
            let fold = m == "try_fold";
            let fi = if fold { 2 } else { 1 };
            let rp = e.prog.adt_path(rty).to_string();
            let good = if rp == "std::option::Option" { 1 } else { 0 };
            let acc0 = if fold { a[1].clone() } else { V::adt(X, 0, vec![]) };
            let outs = e.drive(m, st.clone(), it, vec![(a[fi].clone(), None), (acc0, Some(targ(e, rty, 0)))], false, &mut |e, mut z, d, o| match o {
                None => {
                    let acc = e.mem.read(&mut z, &slot(d, 2));
                    vec![(z, Ctl::Exit(V::adt(rty, good, vec![acc])))]
                }
                Some(x) => {
                    let acc = e.mem.read(&mut z, &slot(d, 2));
                    let args = if fold { vec![acc, x] } else { vec![x] };
                    let mut r = vec![];
                    for (w, y) in e.call_value(z, &V::Ref(slot(d, 1)), args, Some(rty)) {
                        for (mut w, c) in e.cases(&w, &y) {
                            if c.0 == good {
                                w.set_local(d, 2, c.1.first().cloned().unwrap_or(V::Undef));
                                r.push((w, Ctl::Cont));
                            } else {
                                r.push((w, Ctl::Exit(V::adt(rty, c.0, c.1))));
                            }
                        }
                    }
                    r
                }
            });
            Some(outs.into_iter().map(|(z, v, _)| (z, v)).collect())
        }
        "fold" | "rfold" => {
            let outs = e.drive(m, st.clone(), it, vec![(a[2].clone(), None), (a[1].clone(), Some(rty))], back, &mut |e, mut z, d, o| {
                let acc = e.mem.read(&mut z, &slot(d, 2));
                match o {
                    None => vec![(z, Ctl::Exit(acc))],
                    Some(x) => e
                        .call_value(z, &V::Ref(slot(d, 1)), vec![acc, x], Some(rty))
                        .into_iter()
                        .map(|(mut w, v)| {
                            w.set_local(d, 2, v);
                            (w, Ctl::Cont)
                        })
                        .collect(),
                }
            });
            Some(outs.into_iter().map(|(z, v, _)| (z, v)).collect())
        }
        "last" | "max" | "min" | "max_by_key" | "min_by_key" | "sum" | "product" => {
            let outs = e.drive(m, st.clone(), it, vec![], false, &mut |_e, z, _d, o| vec![(z, if o.is_none() { Ctl::Exit(opt(None)) } else { Ctl::Cont })]);
            Some(outs.into_iter().map(|(z, _, _)| {
                let v = e.mem.fresh(m, rty);
                (z, v)
            }).collect())
        }
        "nth" => {
            let n = e.int_arg(st, &a[1]);
            let pp = match &it {
                V::Ref(p) => p.clone(),
                _ => return None,
            };
            if let V::Adt(x) = e.mem.deref_all(st, &it) {
                if let Some(V::Slice(s)) = x.f.first() {
                    let s = s.clone();
                    let (y, no) = e.fork2(st, &F::lt(&n, &s.len));
                    let mut r = vec![];
                    if let Some(mut z) = y {
                        let item = e.elem_ref(&mut z, &s, &n);
                        let len = s.len.clone();
                        let ns = e.subslice(&z, &s, &n.addc(1), &len);
                        e.mem.write(&mut z, &fld(&pp, 0), ns);
                        r.push((z, some(rty, item)));
                    }
                    if let Some(mut z) = no {
                        let len = s.len.clone();
                        let ns = e.subslice(&z, &s, &len, &len);
                        e.mem.write(&mut z, &fld(&pp, 0), ns);
                        r.push((z, none(rty)));
                    }
                    return Some(r);
                }
            }
            None
        }
        _ => None,
    }
}
