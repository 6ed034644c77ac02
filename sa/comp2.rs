// Contracts of components, continued: packs and indexes that are opened.
use crate::checks::*;
use crate::comp::*;
use crate::exec::*;
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::collections::BTreeMap;
use std::rc::Rc;

pub fn ok_of(v: &V) -> Option<V> {
    match v {
        V::Adt(a) if a.var == 0 && a.f.len() == 1 => Some(a.f[0].clone()),
        _ => None,
    }
}
/// Does the type of the successful result have this path?
pub fn ok_is(p: &Prog, t: Ty, path: &str) -> bool {
    match p.k(t) {
        TK::Adt { path: x, args, .. } if x == "std::result::Result" => args.first().map_or(false, |a| p.adt_path(*a) == path),
        _ => false,
    }
}
/// The fields of a structure value, with their types.
pub fn parts(e: &mut Engine, st: &mut State, v: &V) -> Vec<(V, Ty)> {
    let v = e.mem.deref_all(st, v);
    let a = match e.mem.expand(&v, 0) {
        V::Adt(a) => a,
        _ => return vec![],
    };
    let tys: Vec<Ty> = match e.prog.variants(a.ty).and_then(|v| v.get(a.var as usize)) {
        Some(v) => v.fields.iter().map(|f| f.ty).collect(),
        None => match e.prog.k(a.ty) {
            TK::Tuple(t) => t.clone(),
            _ => return vec![],
        },
    };
    a.f.iter().cloned().zip(tys).collect()
}
pub fn part(e: &mut Engine, st: &mut State, v: &V, f: &dyn Fn(&Prog, Ty) -> bool) -> Option<V> {
    let p = e.prog.clone();
    parts(e, st, v).into_iter().find(|x| f(&p, x.1)).map(|x| x.0)
}
fn is_int(p: &Prog, t: Ty) -> bool {
    matches!(p.ts(t), "u8" | "u16" | "u32" | "u64" | "usize" | "i32" | "i64")
}
/// The number of objects a structure says it has.
pub fn count_of(e: &mut Engine, st: &mut State, v: &V) -> Option<Lin> {
    let f = match field(e, st, v, "count") {
        Some(f) => f,
        None => part(e, st, v, &|p, t| is_int(p, t))?,
    };
    Some(e.as_int(&f))
}
pub fn data_of(e: &mut Engine, st: &mut State, v: &V) -> Option<(T, Lin)> {
    let d = match field(e, st, v, "data") {
        Some(d) => d,
        None => part(e, st, v, &|p, t| p.ts(t).contains("Bytes") || p.ts(t).contains("Vec<u8>"))?,
    };
    let s = e.sl(st, &d);
    Some((e.content(st, &d), s.len.clone()))
}
const INDEX: &str = "object::database::packed::index::IndexFile";
const PACK: &str = "object::database::packed::pack::PackFile";

/// Where the file was positioned last.
struct Seeks;
impl Mon for Seeks {
    fn ev(&mut self, _e: &mut Engine, st: &mut State, ev: &Ev) {
        if let ("ok", "seek") = (ev.what, ev.s.as_str()) {
            if let Some(v) = ev.v.get(2) {
                st.set_gv("c14:seek", v.clone());
            }
        }
    }
}
/// Big-endian numbers that the facts of a state speak of: (content, offset) to value.
fn numbers(e: &Engine, st: &State) -> Vec<(T, Lin, i128, Lin)> {
    st.fx.atoms().into_iter().filter_map(|t| be(&e.prog, &lt(t)).map(|(b, o, n)| (b, o, n, lt(t)))).collect()
}
fn literal(t: T, want: &[u8]) -> bool {
    match kind(t) {
        K::App("bytes", _) | K::App("lit", _) => false,
        _ => {
            let s = show(t);
            s.contains(&format!("{:?}", String::from_utf8_lossy(want)))
        }
    }
}
/// Is the beginning of this content known to be (or not to be) these four bytes?
fn starts(e: &Engine, st: &State, c: T, want: u32) -> Option<bool> {
    let mut w = Lin::k(0);
    for i in 0..4 {
        w = w.scale(256).add(&lt(sel(c, &Lin::k(i), Some((0, 255)))));
    }
    let k = Lin::k(want as i128);
    if st.implies(&F::eq(&w, &k)) {
        return Some(true);
    }
    if st.implies(&F::ne(&w, &k)) {
        return Some(false);
    }
    for (b, o, n, v) in numbers(e, st) {
        if b == c && n == 4 && same(st, &o, &Lin::k(0)) {
            if st.implies(&F::eq(&v, &k)) {
                return Some(true);
            }
            if st.implies(&F::ne(&v, &k)) {
                return Some(false);
            }
        }
    }
    // compared as bytes
    for t in st.fx.atoms() {
        if let K::App("eqs", a) = kind(t) {
            let (x, y) = (origin(&e.prog, a[0]), origin(&e.prog, a[1]));
            let lit = |t: T| literal(t, &want.to_be_bytes());
            let here = |o: &Origin| o.base == c && same(st, &o.off, &Lin::k(0)) && o.len.as_ref().and_then(|l| l.is_const()) == Some(4);
            if (here(&x) && lit(a[1])) || (here(&y) && lit(a[0])) {
                let b = st.fx.norm(&lt(t)).is_const();
                return b.map(|b| b != 0);
            }
        }
    }
    None
}
pub fn c14(prog: &Rc<Prog>, r: &mut Report) {
    let mut obs: Vec<(String, bool, String)> = vec![];
    // the pair
    let mut e = engine(prog);
    e.join_at = 4096;
    e.merge_at = 1 << 20;
    e.mon = Some(Box::new(Seeks));
    component(
        &mut e,
        r,
        &|p, x| ok_is(p, p.fns[x.inst].body.as_ref().unwrap().locals[0], "object::database::packed::Entry"),
        &mut |_, _, _| {},
        &mut |e, st, path, _args, out| {
            let v = match ok_of(out) {
                Some(v) => v,
                None => return,
            };
            let mut add = |rule: &str, ok: bool, why: String| obs.push((format!("C14:{}:{}", path, rule), ok, why));
            let ix = part(e, st, &v, &|p, t| p.adt_path(t) == INDEX);
            let pk = part(e, st, &v, &|p, t| p.adt_path(t) == PACK);
            let (ix, pk) = match (ix, pk) {
                (Some(i), Some(p)) => (i, p),
                _ => return add("an entry has an index and a pack", false, show_v(&v)),
            };
            let (n, m) = match (count_of(e, st, &ix), count_of(e, st, &pk)) {
                (Some(n), Some(m)) => (n, m),
                _ => return add("both have a number of objects", false, show_v(&v)),
            };
            add("index and pack have the same number of objects", same(st, &n, &m), format!("{} and {}", showl(&n), showl(&m)));
            let (data, len) = match data_of(e, st, &ix) {
                Some(d) => d,
                None => return add("the index has its data", false, show_v(&ix)),
            };
            let id = part(e, st, &pk, &|p, t| p.adt_path(t) == "object::Id").and_then(|v| bytes_in(e, st, &v));
            let mut agree = false;
            for t in st.fx.atoms() {
                if let K::App("eqs", a) = kind(t) {
                    if st.fx.norm(&lt(t)).is_const() != Some(1) {
                        continue;
                    }
                    for (x, y) in [(a[0], a[1]), (a[1], a[0])] {
                        let o = origin(&e.prog, y);
                        agree |= Some(x) == id && o.base == data && same(st, &o.off, &len.addc(-40)) && o.len.as_ref().and_then(|l| l.is_const()) == Some(20);
                    }
                }
            }
            add("index and pack have the same checksum", agree, "no comparison of the pack's checksum with that of the index holds".into());
            let end = match st.gv.get("c14:seek") {
                Some(V::Adt(a)) => a.var == 1 && a.f.first().map_or(false, |x| e.as_int(x).is_const() == Some(-20)),
                _ => false,
            };
            add("the checksum of the pack is its last 20 bytes", end, "the file is not positioned there before it is read".into());
            let (mut sig, mut ver, mut cnt) = (false, false, false);
            let mut base = None;
            for (b, o, w, v) in numbers(e, st) {
                if w == 4 && b != data && same(st, &v, &m) {
                    cnt = true;
                    base = Some((b, o));
                }
            }
            // parts of one header lie 4 bytes apart
            let near = |b: T, o: &Lin, d: i128| base.as_ref().map_or(true, |(x, y)| *x != b || same(st, &o.addc(d), y));
            for (b, o, w, v) in numbers(e, st) {
                if w == 4 && b != data {
                    sig |= same(st, &v, &Lin::k(0x5041434b)) && near(b, &o, 8);
                    ver |= (same(st, &v, &Lin::k(2)) || same(st, &v, &Lin::k(3))) && near(b, &o, 4);
                }
            }
            if !sig {
                sig = st.fx.atoms().into_iter().any(|t| matches!(kind(t), K::App("eqs", a) if a.iter().any(|x| literal(*x, b"PACK"))) && st.fx.norm(&lt(t)).is_const() == Some(1));
            }
            add("the pack starts with the signature", sig, "no test of the signature holds".into());
            add("the pack has version 2 or 3", ver, "no test of the version holds".into());
            add("the number of objects is that of the pack's header", cnt, showl(&m));
            // the cache belongs to the one pack
        },
    );
    r.functions += e.analysed.len();
    // the index
    let mut e = engine(prog);
    e.join_at = 4096;
    e.merge_at = 1 << 20;
    e.unroll = 260;
    e.join_at = 64;
    e.merge_at = 4096;
    e.max_steps = 1_000_000;
    component(
        &mut e,
        r,
        &|p, x| ok_is(p, p.fns[x.inst].body.as_ref().unwrap().locals[0], INDEX) && sig(p, x).0.iter().any(|a| a.contains("Path")),
        &mut |_, _, _| {},
        &mut |e, st, path, _args, out| {
            let ix = match ok_of(out) {
                Some(v) => v,
                None => return,
            };
            let mut add = |rule: &str, ok: bool, why: String| obs.push((format!("C14:{}:{}", path, rule), ok, why));
            let (n, (data, len)) = match (count_of(e, st, &ix), data_of(e, st, &ix)) {
                (Some(n), Some(d)) => (n, d),
                _ => return add("the index has its data", false, show_v(&ix)),
            };
            let v2 = match starts(e, st, data, 0xff744f63) {
                Some(b) => b,
                None => return add("the versions of an index are told apart by its first bytes", false, "not decided".into()),
            };
            let ver = field(e, st, &ix, "version").and_then(|v| variant(e, st, &v));
            if let Some(x) = &ver {
                add("the version remembered is that of the file", x == if v2 { "V2" } else { "V1" }, x.clone());
            }
            let nums: Vec<(Lin, Lin)> = numbers(e, st).into_iter().filter(|x| x.0 == data && x.2 == 4).map(|x| (st.fx.norm(&x.1), x.3)).collect();
            let at: BTreeMap<i128, Lin> = nums.into_iter().filter_map(|(o, v)| o.is_const().map(|o| (o, v))).collect();
            let fan = if v2 { 8 } else { 0 };
            if v2 {
                add("an index with a signature has version 2", at.get(&4).map_or(false, |v| same(st, v, &Lin::k(2))), "another version is accepted".into());
            }
            let mut up = true;
            for i in 0..255 {
                up &= match (at.get(&(fan + 4 * i)), at.get(&(fan + 4 * i + 4))) {
                    (Some(a), Some(b)) => same(st, a, &Lin::k(0)) || st.implies(&F::le(a, b)),
                    _ => false,
                };
                if !up {
                    add("the fan-out table does not decrease", false, format!("entry {} may exceed the next one", i));
                    break;
                }
            }
            if up {
                add("the fan-out table does not decrease", true, String::new());
            }
            let last = at.get(&(fan + 1020));
            add("the number of objects is the last entry of the fan-out table", last.map_or(false, |l| same(st, l, &n)), showl(&n));
            let entry = if v2 { 28 } else { 24 };
            let min = n.scale(entry).addc(fan + 1024 + 40);
            add("the index is long enough for its objects", st.implies(&F::le(&min, &len)), format!("{} objects in {} bytes", showl(&n), showl(&len)));
            let max = if v2 { min.add(&n.scale(8)) } else { min.clone() };
            add("the index is not too long for its objects", st.implies(&F::le(&len, &max)), format!("{} objects in {} bytes", showl(&n), showl(&len)));
        },
    );
    r.functions += e.analysed.len();
    r.exhausted |= e.exhausted;
    // sizes that wrap around say nothing about the file
    for (k, o) in &e.obl {
        if k.contains("overflow") && k.contains("::index::") {
            r.add(&format!("C14:{}", k), o.ok, &o.at, &o.why);
        }
    }
    for (k, ok, why) in obs {
        r.add(&k, ok, "src/object/database/packed", &why);
    }
}

// ---------------------------------------------------------------- C17
/// The maps a value owns or refers to, by the type of what they hold.
fn maps_in(e: &mut Engine, st: &mut State, v: &V, holds: &str, depth: usize, out: &mut Vec<T>) {
    let v = e.mem.deref_all(st, v);
    if let V::Opq(t, ty) = &v {
        let s = e.prog.ts(*ty).to_string();
        if (s.starts_with("dashmap::DashMap<") || s.starts_with("std::collections::")) && s.contains(holds) {
            out.push(*t);
            return;
        }
    }
    if depth == 0 {
        return;
    }
    let fs = match &v {
        V::Adt(a) => a.f.clone(),
        V::Opq(..) => parts(e, st, &v).into_iter().map(|x| x.0).collect(),
        _ => return,
    };
    for f in fs {
        maps_in(e, st, &f, holds, depth - 1, out);
    }
}
/// Each pack has a cache of its own: the one it is opened with is made by that call.
pub fn own_cache(prog: &Rc<Prog>, r: &mut Report) {
    let mut obs: Vec<(String, bool, String)> = vec![];
    let mut e = engine(prog);
    component(
        &mut e,
        r,
        &|p, x| ok_is(p, p.fns[x.inst].body.as_ref().unwrap().locals[0], "object::database::packed::Entry"),
        &mut |_, _, _| {},
        &mut |e, st, path, _args, out| {
            let v = match ok_of(out) {
                Some(v) => v,
                None => return,
            };
            let mut ms = vec![];
            maps_in(e, st, &v, "object::ObjectHeader", 8, &mut ms);
            let own = !ms.is_empty() && ms.iter().all(|t| matches!(kind(*t), K::App("map", a) if !matches!(kind(a[0]), K::App(..))));
            obs.push((format!("C17:{}:each pack has a cache of its own", path), own, format!("the cache is {}", ms.iter().map(|t| show(*t)).collect::<Vec<_>>().join(", "))));
        },
    );
    for (k, ok, why) in obs {
        r.add(&k, ok, "src/object/database/packed", &why);
    }
}
