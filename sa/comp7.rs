// C01: no panic can be reached.
//
// Every panic the compiler or the library may raise is an obligation of the interpreter already
// (`panic:FUNCTION:WHAT`). What is added here are the invariants of the values that are made in one
// operation and used in another: they are shown where such a value is built, or a lock given back,
// and assumed where one is received.
use crate::checks::*;
use crate::comp2::*;
use crate::comp3::{functions, parser_of};
use crate::comp4::{by_sig, peel_name, step};
use crate::exec::*;
use crate::mons::lcheck;
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::rc::Rc;

const INDEX: &str = "object::database::packed::index::IndexFile";
const SHORT: &str = "object::ShortId";
const BUFFER: &str = "parse::buffer::Buffer";

/// What holds for every value of a type, once it is made.
fn contract(e: &mut Engine, st: &mut State, ty: &str, v: &V) -> Option<F> {
    match ty {
        INDEX => {
            let (_, len) = data_of(e, st, v)?;
            let n = count_of(e, st, v)?;
            let ver = part(e, st, v, &|p, t| p.is_enum(t))?;
            let d = e.discr(st, &ver);
            let names: Vec<(String, i128)> = match &ver {
                V::Adt(a) => e.prog.variants(a.ty)?.iter().map(|x| (x.name.clone(), x.discr)).collect(),
                V::Opq(_, t) => e.prog.variants(*t)?.iter().map(|x| (x.name.clone(), x.discr)).collect(),
                _ => return None,
            };
            let mut f = F::F;
            for (name, k) in names {
                let (head, per) = if name.ends_with('1') { (1064, 24) } else { (1072, 28) };
                let rest = len.sub(&n.scale(per)).addc(-head);
                let rest = st.fx.norm(&rest);
                let eighth = match rest.is_const() {
                    Some(c) => Lin::k(c.div_euclid(8)),
                    None => lt(mk("div", vec![tl(&rest), tl(&Lin::k(8))], Some((0, i128::MAX / 8)))),
                };
                // the table of large offsets is made of whole entries, in version 1 there is none
                let whole = if per == 24 { F::Eq(rest.clone()) } else { F::Eq(rest.sub(&eighth.scale(8))) };
                let g = F::and(&F::Eq(d.addc(-k)), &F::and(&F::le(&Lin::k(0), &rest), &whole));
                f = F::or(&f, &g);
            }
            Some(f)
        }
        SHORT => {
            let n = part(e, st, v, &|p, t| matches!(p.ts(t), "u8" | "u16" | "u32" | "u64" | "usize"))?;
            let n = e.as_int(&n);
            Some(F::and(&F::le(&Lin::k(1), &n), &F::le(&n, &Lin::k(20))))
        }
        BUFFER => {
            let n = part(e, st, v, &|p, t| p.ts(t) == "usize")?;
            let n = e.as_int(&n);
            let b = part(e, st, v, &|p, t| p.ts(t).contains("Bytes") || p.ts(t).contains("Vec<u8>"))?;
            let len = e.sl(st, &b).len.clone();
            Some(F::le(&n, &len))
        }
        _ => None,
    }
}
/// Debug-only self-checks of the library that are taken to hold: the bytes up to the end of a header
/// have been cut at its first zero byte, so parsing up to a zero byte uses all of them.
pub const TRUST: &[&str] = &["assertion failed: parser.finished()"];
pub struct C01;
impl Mon for C01 {
    fn enter(&mut self, e: &mut Engine, st: &mut State, f: FnId, args: &[V]) {
        let p = e.prog.clone();
        if !p.fns[f].local {
            return;
        }
        let b = match &p.fns[f].body {
            Some(b) => b,
            None => return,
        };
        for (i, a) in args.iter().enumerate().take(b.argc) {
            let t = peel_name(&p, b.locals[i + 1]);
            let t = t.trim_start_matches('&');
            if t == INDEX || t == SHORT {
                if let Some(f) = contract(e, st, t, a) {
                    st.assume(&f);
                }
                if t == INDEX {
                    // what both versions have in common
                    if let (Some((_, len)), Some(n)) = (data_of(e, st, a), count_of(e, st, a)) {
                        st.assume(&F::and(&F::le(&Lin::k(0), &n), &F::le(&n.scale(24).addc(1064), &len)));
                    }
                    st.set_gv("c01:index", a.clone());
                }
            }
        }
    }
    fn branch(&mut self, e: &mut Engine, st: &mut State) {
        // the version may be known now
        if let Some(v) = st.gv.get("c01:index").cloned() {
            if let Some(f) = contract(e, st, INDEX, &v) {
                st.assume(&f);
            }
        }
    }
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        match ev.what {
            "cut" => {
                let n = ev.v.len().saturating_sub(1);
                for v in &ev.v[..n] {
                    if let Some((_, pos, len)) = parser_of(e, st, v) {
                        let ok = st.implies(&F::le(&pos, &len));
                        lcheck(e, "C01", "a parser is handed on with a position inside its data", ok, || "the position may lie behind the data".into());
                    }
                }
            }
            "made" => {
                if let Some(f) = contract(e, st, &ev.s, &ev.v[0]) {
                    let ok = st.implies(&f);
                    if !ok && std::env::var("SA_K").is_ok() { eprintln!("MADE {:?}\n{}", ev.v[0], st.fx.show()); }
                    let w = format!("a value of this type does not always have the sizes its methods rely on: {}", showf(&f.map(&|l| st.fx.norm(l))));
                    lcheck(e, "C01", &format!("invariant of {}", ev.s), ok, || w.clone());
                } else {
                    lcheck(e, "C01", &format!("invariant of {}", ev.s), false, || "the parts of this type cannot be told apart".into());
                }
            }
            "locked" => {
                if ev.s.contains(BUFFER) {
                    // in parts, so that joins keep what relates them
                    if let V::Ref(q) = &ev.v[0] {
                        let v = e.mem.read(st, q);
                        let x = e.mem.expand(&v, 0);
                        e.mem.write(st, q, x);
                    }
                    if let Some(f) = contract(e, st, BUFFER, &ev.v[0]) {
                        st.assume(&f);
                    }
                }
            }
            "unlock" => {
                if ev.s.contains(BUFFER) {
                    let g = match &ev.v[0] {
                        V::Adt(a) if !a.f.is_empty() => a.f[0].clone(),
                        _ => return,
                    };
                    if let Some(f) = contract(e, st, BUFFER, &g) {
                        let ok = st.implies(&f);
                        if !ok && std::env::var("SA_K").is_ok() { eprintln!("UNLOCK {:?} {}\n{}", e.mem.deref_all(st, &g), showf(&f), st.fx.show()); }
                        lcheck(e, "C01", "the shared buffer is given back with a position inside it", ok, || "the position may lie behind the data".into());
                    }
                }
            }
            _ => {}
        }
    }
}
/// Values the accessors give out are used in turn.
fn follow(e: &mut Engine, st: &State, v: &V, ty: Ty, depth: u32, seen: &mut BTreeSet<String>) {
    if depth > 6 || st.fx.bot {
        return;
    }
    let p = e.prog.clone();
    match p.k(ty).clone() {
        TK::Ref(t, _) => {
            let mut s = st.clone();
            let x = e.mem.deref_all(&mut s, v);
            if !x.is_undef() {
                follow(e, &s, &x, t, depth + 1, seen);
            }
        }
        TK::Adt { path, .. } if path == "std::option::Option" || path == "std::result::Result" || p.is_enum(ty) => {
            let cs = match v {
                V::Adt(a) => vec![(st.clone(), (a.var, a.f.clone()))],
                _ => e.cases(st, v),
            };
            for (s, (var, f)) in cs {
                if let Some(ts) = e.mem.field_tys(ty, var) {
                    for (i, t) in ts.iter().enumerate() {
                        if let Some(x) = f.get(i) {
                            follow(e, &s, x, *t, depth + 1, seen);
                        }
                    }
                }
            }
            if p.is_local_adt(ty) {
                methods(e, st, v, ty, depth, seen);
            }
        }
        TK::Adt { .. } if p.is_local_adt(ty) => methods(e, st, v, ty, depth, seen),
        _ => {
            // an iterator
            for (s, item) in step(e, st, v, ty) {
                let t = match &item {
                    V::Adt(a) => a.ty,
                    _ => continue,
                };
                follow(e, &s, &item, t, depth + 1, seen);
            }
        }
    }
}
fn shown(p: &Prog, t: Ty) -> bool {
    p.ts(t).contains("fmt::Formatter")
}
/// Every public method that needs nothing but a reference to the value.
fn methods(e: &mut Engine, st: &State, v: &V, ty: Ty, depth: u32, seen: &mut BTreeSet<String>) {
    let p = e.prog.clone();
    let want = peel_name(&p, ty);
    if want.ends_with("::Id") || want.ends_with("ShortId") || want.ends_with("Error") {
        return;
    }
    for x in p.roots.iter().filter(|x| !x.generic && !x.path.contains("Clone")) {
        let b = match &p.fns[x.inst].body {
            Some(b) if (b.argc == 1 || b.argc == 2 && shown(&p, b.locals[2])) && peel_name(&p, b.locals[1]).trim_start_matches('&') == want => b,
            _ => continue,
        };
        seen.insert(x.path.clone());
        let by_ref = peel_name(&p, b.locals[1]).starts_with('&');
        let mut s = st.clone();
        let a = if by_ref { e.cell(&mut s, v.clone(), ty) } else { v.clone() };
        e.root = x.path.clone();
        e.root_ty = b.locals[0];
        if std::env::var("SA_T").is_ok() {
            println!("T {}{}", "  ".repeat(depth as usize), x.path);
        }
        let mut args = vec![a];
        if b.argc == 2 {
            args.push(e.mem.fresh("fmt", b.locals[2]));
        }
        for (z, o) in e.exec_fn(s, x.inst, args) {
            follow(e, &z, &o, b.locals[0], depth + 1, seen);
        }
    }
}
/// The operations on an index file that the rest of the library uses.
pub fn index_api(p: &Prog) -> Vec<FnId> {
    let on_index = |f: FnId| p.fns[f].body.as_ref().map_or(false, |b| b.argc >= 1 && peel_name(p, b.locals[1]) == format!("&{}", INDEX));
    let mut r = BTreeSet::new();
    for f in 0..p.fns.len() {
        let b = match &p.fns[f].body {
            Some(b) if p.fns[f].local && !on_index(f) && !p.fns[f].path.contains("IndexFile") => b,
            _ => continue,
        };
        for k in &b.blocks {
            if let Tm::Call { callee, .. } = &k.t {
                if let Some(g) = callee.inst {
                    if p.fns[g].local && on_index(g) {
                        r.insert(g);
                    }
                }
            }
        }
    }
    r.into_iter().collect()
}
/// Each of them on any index file there can be.
pub fn index(prog: &Rc<Prog>, r: &mut Report) -> Vec<FnId> {
    let mut e = engine(prog);
    e.join_at = 64;
    e.merge_at = 4096;
    e.made = watched(prog);
    e.trust = TRUST.to_vec();
    e.mon = Some(Box::new(C01));
    let fns = index_api(prog);
    functions(&mut e, r, &fns, &mut |_, _, _| {}, &mut |_, _, _, _, _| {});
    r.take(&e, "panic:");
    r.take(&e, "C01:");
    fns
}
pub fn watched(p: &Prog) -> BTreeSet<String> {
    let _ = p;
    [INDEX, SHORT].iter().map(|x| x.to_string()).collect()
}
/// Objects: parsed from any content, then every accessor of what they give out.
pub fn objects(prog: &Rc<Prog>, r: &mut Report) -> (BTreeSet<String>, Vec<FnId>) {
    let mut e = engine(prog);
    e.join_at = 4096;
    e.merge_at = 1 << 20;
    e.made = watched(prog);
    e.trust = TRUST.to_vec();
    e.mon = Some(Box::new(C01));
    e.mem.int_tpl = true;
    let mut seen = BTreeSet::new();
    let mut cuts = vec![];
    for ty in ["object::commit::Commit", "object::tag::Tag", "object::tree::Tree", "object::blob::Blob"] {
        let fns = by_sig(prog, &|p, a, ret| a.len() == 1 && ok_is(p, ret, ty) && p.ts(a[0]).contains("parse::parser::Parser<"));
        let mut outs: Vec<(State, V)> = vec![];
        functions(
            &mut e,
            r,
            &fns,
            &mut |e, st, a| {
                if let Some((_, pos, len)) = parser_of(e, st, &a[0]) {
                    st.assume(&F::le(&pos, &len));
                }
            },
            &mut |_, st, _, _, out| {
                if let Some(v) = ok_of(out) {
                    outs.push((st.clone(), v));
                }
            },
        );
        cuts.extend(fns.iter().cloned());
        if fns.is_empty() || outs.is_empty() {
            r.add(&format!("C01:{}:parsed", ty), false, "", "no function that parses it was found");
        }
        for (st, v) in outs {
            if let V::Adt(a) = &v {
                let t = a.ty;
                follow(&mut e, &st, &v, t, 0, &mut seen);
            }
        }
    }
    r.take(&e, "panic:");
    r.take(&e, "C01:");
    (seen, cuts)
}
