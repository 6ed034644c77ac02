// Contracts of components: what the result of a function says about its arguments on every path that returns.
use crate::checks::*;
use crate::exec::*;
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::rc::Rc;

/// A region of bytes: where the value of a term is read from.
#[derive(Clone, Debug)]
pub struct Origin {
    pub base: T,
    pub off: Lin,
    pub len: Option<Lin>,
    pub ty: Option<Ty>,
}
pub fn origin(p: &Prog, t: T) -> Origin {
    let me = Origin { base: t, off: Lin::k(0), len: None, ty: None };
    if let K::App(f, a) = kind(t) {
        match f {
            "sl" => {
                let o = origin(p, a[0]);
                return Origin { base: o.base, off: o.off.add(&lt(a[1])), len: Some(lt(a[2])), ty: None };
            }
            "sel" => {
                if let K::App(c, x) = kind(a[0]) {
                    if let Some(n) = c.strip_prefix("cast:") {
                        if let Some(ty) = p.by_s.get(n) {
                            if let Some(sz) = p.types[*ty as usize].size {
                                let o = origin(p, x[0]);
                                return Origin { base: o.base, off: o.off.add(&lt(a[1]).scale(sz)), len: Some(Lin::k(sz)), ty: Some(*ty) };
                            }
                        }
                    }
                }
                let o = origin(p, a[0]);
                if o.ty.is_none() || o.base != a[0] {
                    return Origin { base: o.base, off: o.off.add(&lt(a[1])), len: Some(Lin::k(1)), ty: None };
                }
            }
            "fld" => {
                let o = origin(p, a[0]);
                if let Some(ty) = o.ty {
                    let k = lt(a[2]).c as usize;
                    let ft = match p.k(ty) {
                        TK::Adt { .. } => p.variants(ty).and_then(|v| v.first()).and_then(|v| v.fields.get(k)).map(|f| f.ty),
                        _ => None,
                    };
                    if let (Some(ft), Some(d)) = (ft, p.types[ty as usize].offsets.get(k)) {
                        return Origin { base: o.base, off: o.off.addc(*d), len: p.types[ft as usize].size.map(Lin::k), ty: Some(ft) };
                    }
                }
            }
            _ => {
                // a structure laid over bytes
                if let Some(ty) = f.strip_prefix("cast:").and_then(|n| p.by_s.get(n)) {
                    if let (Some(sz), 1) = (p.types[*ty as usize].size, a.len()) {
                        let o = origin(p, a[0]);
                        return Origin { base: o.base, off: o.off, len: Some(Lin::k(sz)), ty: Some(*ty) };
                    }
                }
            }
        }
    }
    me
}
/// The place a big-endian number is read from: (content, offset, width).
pub fn be(p: &Prog, l: &Lin) -> Option<(T, Lin, i128)> {
    if l.c == 0 && l.m.len() == 1 && l.m[0].1 == 1 {
        let t = l.m[0].0;
        if let K::App("word", a) = kind(t) {
            let o = origin(p, a[0]);
            let big = o.ty.map_or(false, |y| p.ts(y).contains("BigEndian"));
            return match (big, o.len.as_ref().and_then(|l| l.is_const())) {
                (true, Some(n)) => Some((o.base, o.off, n)),
                _ => None,
            };
        }
    }
    // a sum of bytes
    if l.c != 0 || l.m.is_empty() {
        return None;
    }
    let mut m = l.m.clone();
    m.sort_by_key(|x| std::cmp::Reverse(x.1));
    let n = m.len() as i128;
    let mut first: Option<(T, Lin)> = None;
    for (i, (t, k)) in m.iter().enumerate() {
        if *k != 1i128 << (8 * (n - 1 - i as i128)) || !matches!(kind(*t), K::App("sel", _)) {
            return None;
        }
        let o = origin(p, *t);
        match &first {
            None => first = Some((o.base, o.off)),
            Some((b, f)) => {
                if *b != o.base || f.addc(i as i128) != o.off {
                    return None;
                }
            }
        }
    }
    first.map(|(b, f)| (b, f, n))
}
pub fn same(st: &State, a: &Lin, b: &Lin) -> bool {
    a == b || st.fx.norm(a) == st.fx.norm(b) || st.implies(&F::eq(a, b))
}
/// The field of that name in a structure value.
pub fn field(e: &mut Engine, st: &mut State, v: &V, name: &str) -> Option<V> {
    let v = e.mem.deref_all(st, v);
    let a = match e.mem.expand(&v, 0) {
        V::Adt(a) => a,
        _ => return None,
    };
    let i = e.prog.variants(a.ty)?.get(a.var as usize)?.fields.iter().position(|f| f.name == name)?;
    a.f.get(i).cloned()
}
/// The name of the variant a value is known to have.
pub fn variant(e: &mut Engine, st: &mut State, v: &V) -> Option<String> {
    let v = e.mem.deref_all(st, v);
    match &v {
        V::Adt(a) => e.prog.variants(a.ty)?.get(a.var as usize).map(|x| x.name.clone()),
        V::Opq(_, ty) => {
            let d = e.discr(st, &v);
            let vs = e.prog.variants(*ty)?.clone();
            vs.iter().find(|x| same(st, &d, &Lin::k(x.discr))).map(|x| x.name.clone())
        }
        _ => None,
    }
}
/// The bytes of an id, wherever they are kept in the value.
pub fn bytes_in(e: &mut Engine, st: &mut State, v: &V) -> Option<T> {
    let v = e.mem.deref_all(st, v);
    match e.mem.expand(&v, 0) {
        V::Adt(a) => {
            let fs = a.f.clone();
            fs.iter().find_map(|x| bytes_in(e, st, x))
        }
        V::Seq(s) => Some(s.c),
        V::Slice(s) => {
            let s = V::Slice(s);
            Some(e.content(st, &s))
        }
        V::Opq(t, ty) if matches!(e.prog.k(ty), TK::Array(..)) => Some(t),
        _ => None,
    }
}
/// Runs each function whose path satisfies the predicate on arbitrary arguments; calls `post` on every return.
pub fn component(e: &mut Engine, r: &mut Report, pick: &dyn Fn(&Prog, &Root) -> bool, pre: &mut dyn FnMut(&mut Engine, &mut State, &[V]), post: &mut dyn FnMut(&mut Engine, &mut State, &str, &[V], &V)) {
    e.arb = true;
    let prog = e.prog.clone();
    for root in &prog.roots {
        if root.generic || root.path.contains("fmt::") || prog.fns[root.inst].body.is_none() || !pick(&prog, root) {
            continue;
        }
        e.root = root.path.clone();
        e.root_ty = prog.fns[root.inst].body.as_ref().unwrap().locals[0];
        r.roots.push(root.path.clone());
        let mut args: Vec<V> = vec![];
        let outs = e.run_root(root.inst, &mut |e, st, tys| {
            args = tys.iter().map(|t| e.mem.fresh("arg", *t)).collect();
            let vs = args.clone();
            pre(e, st, &vs);
            args.clone()
        });
        for (mut s, v) in outs {
            if s.fx.bot {
                continue;
            }
            let a = args.clone();
            post(e, &mut s, &root.path, &a, &v);
        }
    }
}
pub fn sig(p: &Prog, r: &Root) -> (Vec<String>, String) {
    let b = p.fns[r.inst].body.as_ref().unwrap();
    (b.locals[1..=b.argc].iter().map(|t| p.ts(*t).to_string()).collect(), p.ts(b.locals[0]).to_string())
}

// ---------------------------------------------------------------- C22
/// Remembers the search made on the path and checks that it orders the ids.
pub struct C22;
impl Mon for C22 {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        match ev.what {
            "cmpseq" => {
                let (x, y) = (e.content(st, &ev.v[0]), e.content(st, &ev.v[1]));
                let k = e.as_int(&ev.v[2]).c;
                st.set_gv("c22:a", e.bytes_of(x));
                st.set_gv("c22:b", e.bytes_of(y));
                Rc::make_mut(&mut st.gh).insert("c22:k".into(), k as i64);
            }
            "bs_cmp" => {
                let k = e.as_int(&ev.v[2]).c;
                let i = e.as_int(&ev.v[1]);
                let sg = st.gh.get("c22:k").copied();
                let (a, b) = (st.gv.get("c22:a").cloned(), st.gv.get("c22:b").cloned());
                let mut ok = false;
                if let (Some(sg), Some(a), Some(b), V::Slice(s)) = (sg, a, b, &ev.v[0]) {
                    let (a, b) = (e.content(st, &a), e.content(st, &b));
                    // which side is the table entry
                    let tab = origin(&e.prog, s.seq.c).base;
                    let (oa, ob) = (origin(&e.prog, a), origin(&e.prog, b));
                    let (ent, sg) = if oa.base == tab || a == tab { (oa.clone(), sg) } else { (ob.clone(), -sg) };
                    let el = V::Slice(s.clone());
                    let w = e.mem.slice_elem(st, s, &i);
                    let _ = el;
                    let whole = bytes_in(e, st, &w).map(|t| origin(&e.prog, t));
                    // the whole id of the entry takes part in the comparison
                    let full = ent.len.as_ref().and_then(|l| l.is_const()) == Some(20);
                    let place = whole.map_or(false, |w| w.base == ent.base && same(st, &w.off, &ent.off));
                    let dir = sg == k as i64 || (k == 2 && sg >= 0);
                    // and all the bytes of the id that is looked for
                    let other = if oa.base == tab || a == tab { &ob } else { &oa };
                    let all = match st.gv.get("c22:id").cloned() {
                        Some(id) => is_prefix(e, st, other, &id),
                        None => true,
                    };
                    ok = full && place && dir && all;
                }
                crate::mons::lcheck(e, "C22", "the table is searched by the order of its ids", ok, || "the comparison of the search is not that of the entry's whole id with the id looked for".into());
            }
            "bs_ins" => {
                st.set_gv("c22:s", ev.v[0].clone());
                st.set_gv("c22:j", ev.v[1].clone());
            }
            _ => {}
        }
    }
}
/// All the bytes that a short id holds.
fn is_prefix(e: &mut Engine, st: &mut State, o: &Origin, id: &V) -> bool {
    let b = match bytes_in(e, st, id) {
        Some(b) => origin(&e.prog, b),
        None => return false,
    };
    let v = e.mem.deref_all(st, id);
    let n = match e.mem.expand(&v, 0) {
        V::Adt(a) => a.f.iter().find_map(|x| if let V::Int(l) = x { Some(l.clone()) } else { None }),
        _ => None,
    };
    let n = n.unwrap_or(Lin::k(20));
    let len = o.len.clone().unwrap_or(Lin::k(20));
    o.base == b.base && same(st, &o.off, &b.off) && same(st, &len, &n)
}
pub fn c22(prog: &Rc<Prog>, r: &mut Report) {
    let mut e = engine(prog);
    e.mon = Some(Box::new(C22));
    e.join_at = 64;
    e.merge_at = 4096;
    let mut obs: Vec<(String, bool, String)> = vec![];
    component(
        &mut e,
        r,
        &|p, x| {
            let (a, o) = sig(p, x);
            a.len() == 2 && a[0].contains("IndexFile") && a[1].contains("ShortId") && o.contains("(u64, object::Id)")
        },
        &mut |_, st, args| st.set_gv("c22:id", args[1].clone()),
        &mut |e, st, path, args, out| {
            let mut add = |rule: &str, ok: bool, why: String| obs.push((format!("C22:{}:{}", path, rule), ok, why));
            let p = e.prog.clone();
            let (data, count, ver) = (field(e, st, &args[0], "data"), field(e, st, &args[0], "count"), field(e, st, &args[0], "version"));
            let (data, count, ver) = match (data, count, ver) {
                (Some(d), Some(c), Some(v)) => (e.content(st, &d), e.as_int(&c), variant(e, st, &v)),
                _ => return add("the index has data, a count and a version", false, "the parts of the index cannot be told apart".into()),
            };
            let short = bytes_in(e, st, &args[1]);
            let v2 = ver.as_deref() == Some("V2");
            let err = match out {
                V::Adt(a) if a.var == 1 => variant(e, st, &a.f[0]),
                V::Adt(_) => None,
                _ => return add("the outcome is decided", false, "the result is not a result of this lookup".into()),
            };
            if matches!(err.as_deref(), Some("ReadIndexFile")) {
                return;
            }
            let (head, ids, step, ido, offs) = if v2 { (8, 1032, 20, 0, 24) } else { (0, 1024, 24, 4, 0) };
            let short = match short {
                Some(s) => s,
                None => return add("the id looked for has bytes", false, "no bytes".into()),
            };
            let b0 = lt(sel(short, &Lin::k(0), Some((0, 255))));
            let is_fan = |st: &State, l: &Lin, b: &Lin| match be(&p, l) {
                Some((d, o, 4)) => d == data && same(st, &o, &b.scale(4).addc(head)),
                _ => false,
            };
            // the range of the table that was searched
            let pos_of = |off: &Lin| -> Option<Lin> {
                let x = off.addc(-(ids + ido));
                let mut y = Lin::k(0);
                if x.c % step != 0 {
                    return None;
                }
                y.c = x.c / step;
                for (t, k) in &x.m {
                    if k % step != 0 {
                        return None;
                    }
                    y.m.push((*t, k / step));
                }
                Some(y)
            };
            // an entry's id: its position in the table
            let entry_of = |st: &State, t: T| -> Option<Lin> {
                let o = origin(&p, t);
                if o.base != data || o.len.and_then(|l| l.is_const()) != Some(20) {
                    return None;
                }
                pos_of(&st.fx.norm(&o.off)).or_else(|| pos_of(&o.off))
            };
            let is_start = |st: &State, l: &Lin| {
                if st.implies(&F::eq(&b0, &Lin::k(0))) {
                    same(st, l, &Lin::k(0))
                } else {
                    is_fan(st, l, &b0.addc(-1))
                }
            };
            // what is known about prefixes of entries on this path
            let shows = |e: &mut Engine, st: &mut State, pos: &Lin, want: bool| -> bool {
                let ats = st.fx.atoms();
                ats.iter().any(|t| match kind(*t) {
                    K::App("sw", a) => {
                        let s = origin(&p, a[1]);
                        entry_of(st, a[0]).map_or(false, |q| same(st, &q, pos)) && is_prefix(e, st, &s, &args[1]) && same(st, &lt(*t), &Lin::k(want as i128))
                    }
                    K::App("cmpseq", a) if want => {
                        let (x, y) = if entry_of(st, a[0]).is_some() { (a[0], a[1]) } else { (a[1], a[0]) };
                        entry_of(st, x).map_or(false, |q| same(st, &q, pos)) && is_prefix(e, st, &origin(&p, y), &args[1]) && same(st, &lt(*t), &Lin::k(0))
                    }
                    _ => false,
                })
            };
            let search = match (st.gv.get("c22:s").cloned(), st.gv.get("c22:j").cloned()) {
                (Some(V::Slice(s)), Some(V::Int(j))) => {
                    let el = e.mem.slice_elem(st, &s, &Lin::k(0));
                    let id = bytes_in(e, st, &el);
                    match id.and_then(|t| entry_of(st, t)) {
                        Some(start) => Some((start, s.len.clone(), j)),
                        None => None,
                    }
                }
                _ => None,
            };
            if let Some((start, len, _)) = &search {
                let end = start.add(len);
                let ok = is_start(st, start) && (is_fan(st, &st.fx.norm(&end), &b0) || is_fan(st, &end, &b0));
                add("the range searched is that of the first byte", ok, format!("searched from {} to {}", showl(start), showl(&end)));
            }
            match err.as_deref() {
                Some("NotFound") => {
                    let ok = search.as_ref().map_or(false, |(s, n, j)| same(st, n, j) || shows(e, st, &s.add(j), false));
                    add("not found means that no entry has the prefix", ok, "the entry at the insertion point may still match".into());
                }
                Some("Ambiguous") => {
                    let ok = search.as_ref().map_or(false, |(s, _, j)| {
                        let q = s.add(j);
                        st.implies(&F::lt(&j.addc(1), &search.as_ref().unwrap().1)) && shows(e, st, &q, true) && shows(e, st, &q.addc(1), true)
                    });
                    add("ambiguous means that two entries have the prefix", ok, "two matching entries are not shown".into());
                }
                Some(x) => add("the outcome is decided", false, format!("unexpected outcome {}", x)),
                None => {
                    let pair = match out {
                        V::Adt(a) => e.mem.expand(&a.f[0], 0),
                        _ => V::Undef,
                    };
                    let (off, id) = match &pair {
                        V::Adt(a) if a.f.len() == 2 => (e.as_int(&a.f[0]), bytes_in(e, st, &a.f[1])),
                        _ => return add("the outcome is decided", false, "no pair".into()),
                    };
                    let pos = match id.and_then(|t| entry_of(st, t)) {
                        Some(x) => x,
                        None => return add("the id returned is an entry of the table", false, format!("{}", id.map_or(String::new(), show))),
                    };
                    let matched = shows(e, st, &pos, true);
                    add("the id returned matches the id looked for", matched, format!("nothing shows that entry {} has the prefix", showl(&pos)));
                    let exact = st.fx.atoms().iter().any(|t| matches!(kind(*t), K::App("cmpseq", _)) && same(st, &lt(*t), &Lin::k(0)));
                    let single = exact || search.as_ref().map_or(false, |(s, n, j)| same(st, &s.add(j), &pos) && (same(st, &j.addc(1), n) || shows(e, st, &pos.addc(1), false)));
                    add("only a single match is returned", single, format!("another entry than {} may match as well", showl(&pos)));
                    let at = |l: &Lin| be(&p, l);
                    let right = match at(&off) {
                        Some((d, o, 4)) if !v2 => d == data && same(st, &o, &pos.scale(24).addc(1024)),
                        Some((d, o, 4)) => d == data && same(st, &o, &count.scale(offs).add(&pos.scale(4)).addc(1032)) && {
                            let t = off.m[0].0;
                            off.m.len() > 1 && st.implies(&F::lt(&off, &Lin::k(1 << 31))) || same(st, &bits(t, 31, 1), &Lin::k(0)) || st.implies(&F::lt(&off, &Lin::k(1 << 31)))
                        },
                        Some((d, o, 8)) if v2 => {
                            // the slot named by the entry of the 32-bit table
                            let want = count.scale(24).add(&pos.scale(4)).addc(1032);
                            let tab = count.scale(28).addc(1032);
                            d == data
                                && st.fx.atoms().iter().chain(o.m.iter().map(|x| &x.0)).any(|t| {
                                    let w = match kind(*t) {
                                        K::App("bits", a) => a[0],
                                        _ => *t,
                                    };
                                    let is = matches!(at(&lt(w)), Some((d, x, 4)) if d == data && same(st, &x, &want));
                                    let set = same(st, &bits(w, 31, 1), &Lin::k(1)) || st.implies(&F::lt(&Lin::k((1 << 31) - 1), &lt(w)));
                                    is && set && (same(st, &o, &tab.add(&bits(w, 0, 31).scale(8))) || same(st, &o, &tab.add(&lt(w).addc(-(1 << 31)).scale(8))))
                                })
                        }
                        _ => false,
                    };
                    add("the offset is stored at the position of the id", right, format!("offset {} for the id at position {}", showl(&off), showl(&pos)));
                }
            }
        },
    );
    for (k, ok, why) in obs {
        r.add(&k, ok, "src/object/database/packed/index.rs", &why);
    }
    r.take(&e, "C22:");
}

// ---------------------------------------------------------------- C24
/// Functions by the last part of their path and a part of the name of their instance; by signature when renamed.
pub fn find_fns(p: &Prog, name: &str, inst: &str, ret: &str) -> Vec<FnId> {
    let all = |f: &dyn Fn(usize) -> bool| -> Vec<FnId> { (0..p.fns.len()).filter(|i| p.fns[*i].body.is_some() && p.fns[*i].inst.contains(inst) && f(*i)).collect() };
    let v = all(&|i| p.fns[i].path.ends_with(&format!("::{}", name)));
    if !v.is_empty() {
        return v;
    }
    all(&|i| {
        let b = p.fns[i].body.as_ref().unwrap();
        p.ts(b.locals[0]) == ret && b.argc == 1
    })
}
/// The bytes in front of the position of a read buffer: content, position.
pub fn buffered(e: &mut Engine, st: &mut State, v: &V) -> Option<(T, Lin, Lin)> {
    let b = field(e, st, v, "buffer")?;
    let p = field(e, st, v, "pos")?;
    let s = e.sl(st, &b);
    let c = e.mem.slice_content(st, &s);
    Some((c, e.as_int(&p), s.len.clone()))
}
/// Analyses a decoder on a buffer that already holds enough bytes, each loop unrolled to its end.
fn decoder_at_end(prog: &Rc<Prog>, r: &mut Report, fns: &[FnId], have: i128, post: &mut dyn FnMut(&mut Report, &mut Engine, &mut State, T, &Lin, &V)) {
    decode(prog, r, fns, have, true, &mut |r, e, st, _, c, p, _, v| post(r, e, st, c, p, v));
}
pub fn decoder(prog: &Rc<Prog>, r: &mut Report, fns: &[FnId], have: i128, post: &mut dyn FnMut(&mut Engine, &mut State, &str, T, &Lin, &V, &V)) {
    decode(prog, r, fns, have, false, &mut |_, e, st, f, c, p, a, v| post(e, st, f, c, p, a, v));
}
fn decode(prog: &Rc<Prog>, r: &mut Report, fns: &[FnId], have: i128, end: bool, post: &mut dyn FnMut(&mut Report, &mut Engine, &mut State, &str, T, &Lin, &V, &V)) {
    for f in fns {
        let mut e = engine(prog);
        e.arb = true;
        e.unroll = have as usize + 2;
        e.eof = end;
        e.join_at = 4096;
        e.merge_at = 1 << 20;
        e.root = prog.fns[*f].path.clone();
        e.root_ty = prog.fns[*f].body.as_ref().unwrap().locals[0];
        r.roots.push(prog.fns[*f].inst.clone());
        let mut arg = V::Undef;
        let mut from = None;
        let outs = e.run_root(*f, &mut |e, st, tys| {
            let vs: Vec<V> = tys.iter().map(|t| e.mem.fresh("arg", *t)).collect();
            arg = vs[0].clone();
            from = buffered(e, st, &vs[0]);
            if let Some((_, p, n)) = &from {
                st.assume(&if end { F::eq(&p.addc(have), n) } else { F::le(&p.addc(have), n) });
            }
            vs
        });
        let (c, p, _) = match from {
            Some(x) => x,
            None => {
                r.add(&format!("C24:{}:the buffer is understood", prog.fns[*f].path), false, "", "no buffer");
                continue;
            }
        };
        for (mut s, v) in outs {
            if !s.fx.bot {
                post(r, &mut e, &mut s, &prog.fns[*f].path, c, &p, &arg, &v);
            }
        }
        if !e.loops_seen.is_empty() && std::env::var("SA_EV").is_ok() {
            println!("loops left {:?}", e.loops_seen.keys().collect::<Vec<_>>());
        }
        r.functions += e.analysed.len();
        r.calls += e.steps;
        r.exhausted |= e.exhausted;
        for (k, n) in &e.unknown {
            *r.unknown.entry(k.clone()).or_insert(0) += n;
        }
    }
}
fn byte(c: T, p: &Lin, i: i128) -> T {
    sel(c, &p.addc(i), Some((0, 255)))
}
/// The length of the base-128 number at the offset, from what the path shows about its bytes.
fn varint_len(st: &State, c: T, p: &Lin, at: i128) -> Result<i128, i128> {
    for i in 0..24 {
        let b = bits(byte(c, p, at + i), 7, 1);
        if st.implies(&F::eq(&b, &Lin::k(0))) {
            return Ok(i + 1);
        }
        if !st.implies(&F::eq(&b, &Lin::k(1))) {
            return Err(i);
        }
    }
    Err(24)
}
/// Little-endian base-128: all of it, and what fits in 64 bits.
fn little(c: T, p: &Lin, at: i128, n: i128, mut l: Lin, mut shift: i128, skip: i128) -> (Lin, Lin) {
    let mut t = l.clone();
    for i in skip..n {
        let b = byte(c, p, at + i);
        l = l.add(&bits(b, 0, 7).scale(1i128 << shift.min(100)));
        if shift < 64 {
            t = t.add(&bits(b, 0, 7.min(64 - shift)).scale(1i128 << shift));
        }
        shift += 7;
    }
    (l, t)
}
pub fn c24(prog: &Rc<Prog>, r: &mut Report) {
    let mut obs: Vec<(String, bool, String)> = vec![];
    for (name, ret, what) in [
        ("read_pack_object_header", "std::result::Result<object::ObjectHeader, object::database::packed::pack::ReadPackFileError>", 0),
        ("read_delta_offset", "std::result::Result<u64, object::database::packed::pack::ReadPackFileError>", 1),
        ("read_delta_header", "std::result::Result<object::database::packed::delta::DeltaHeader, object::database::packed::delta::DeltaError>", 2),
        ("read_command", "std::result::Result<std::option::Option<object::database::packed::delta::Command>, object::database::packed::delta::DeltaError>", 3),
    ] {
        let fns = find_fns(prog, name, "fs_err::File", ret);
        let fns = if fns.is_empty() { find_fns(prog, name, "&[u8]", ret) } else { fns };
        decoder(prog, r, &fns, 24, &mut |e, st, _path, c, p, arg, out| {
            let mut add = |rule: &str, ok: bool, why: String| obs.push((format!("C24:{}:{}", name, rule), ok, why));
            let (ok, val) = match out {
                V::Adt(a) => (a.var == 0, e.mem.expand(&a.f[0], 0)),
                _ => return add("the outcome is decided", false, "not a result".into()),
            };
            let end = buffered(e, st, arg).map(|x| st.fx.norm(&x.1.sub(p))).and_then(|l| l.is_const());
            let first = varint_len(st, c, p, 0);
            let long = |x: &Result<i128, i128>| match x {
                Ok(n) => *n >= 10,
                Err(n) => *n >= 9,
            };
            let num = |st: &State, got: &Lin, full: &Lin, cut: &Lin| same(st, got, full) || same(st, got, cut);
            match what {
                0 => {
                    let ty = st.fx.norm(&bits(byte(c, p, 0), 4, 3));
                    if !ok {
                        let bad = st.implies(&F::or(&F::eq(&ty, &Lin::k(0)), &F::eq(&ty, &Lin::k(5))));
                        return add("only undefined types and oversized lengths are refused", bad || long(&first), format!("type {} refused", showl(&ty)));
                    }
                    let (k, len) = match (field(e, st, &val, "kind"), field(e, st, &val, "len")) {
                        (Some(k), Some(l)) => (variant(e, st, &k).unwrap_or_default(), e.as_int(&l)),
                        _ => return add("the header has a kind and a length", false, show_v(&val)),
                    };
                    let code = match k.as_str() {
                        "Commit" => 1,
                        "Tree" => 2,
                        "Blob" => 3,
                        "Tag" => 4,
                        "OfsDelta" => 6,
                        "RefDelta" => 7,
                        _ => -1,
                    };
                    add("the type is that of bits 4 to 6", same(st, &ty, &Lin::k(code)), format!("{} for type {}", k, showl(&ty)));
                    let n = match first {
                        Ok(n) => n,
                        Err(n) => return add("the header ends at the first byte without the top bit", false, format!("no end shown in {} bytes", n)),
                    };
                    let (full, cut) = little(c, p, 0, n, bits(byte(c, p, 0), 0, 4), 4, 1);
                    add("the length is that of the bits of the header", num(st, &len, &full, &cut), format!("{} bytes read as {}", n, showl(&len)));
                    add("as many bytes are consumed as the header has", end == Some(n), format!("{:?} instead of {}", end, n));
                }
                1 => {
                    if !ok {
                        return add("only oversized offsets are refused", long(&first), "a valid offset is refused".into());
                    }
                    let n = match first {
                        Ok(n) => n,
                        Err(n) => return add("the offset ends at the first byte without the top bit", false, format!("no end shown in {} bytes", n)),
                    };
                    let mut l = bits(byte(c, p, 0), 0, 7);
                    for i in 1..n {
                        l = l.addc(1).scale(128).add(&bits(byte(c, p, i), 0, 7));
                    }
                    let got = e.as_int(&match out {
                        V::Adt(a) => a.f[0].clone(),
                        _ => V::Undef,
                    });
                    // more than 64 bits
                    let over = st.implies(&F::lt(&Lin::k(u64::MAX as i128 - 128), &l));
                    add("the offset is that of the biased base-128 digits", same(st, &got, &l) || over || n > 10, format!("{} bytes read as {}", n, showl(&got)));
                    add("as many bytes are consumed as the offset has", end == Some(n), format!("{:?} instead of {}", end, n));
                }
                2 => {
                    let second = match first {
                        Ok(n) => varint_len(st, c, p, n),
                        Err(n) => Err(n),
                    };
                    if !ok {
                        return add("only oversized lengths are refused", long(&first) || long(&second), "valid lengths are refused".into());
                    }
                    let (n, m) = match (first, second) {
                        (Ok(n), Ok(m)) => (n, m),
                        _ => return add("a length ends at the first byte without the top bit", false, "no end shown".into()),
                    };
                    let (a, b) = match (field(e, st, &val, "base_len"), field(e, st, &val, "result_len")) {
                        (Some(a), Some(b)) => (e.as_int(&a), e.as_int(&b)),
                        _ => return add("the header has two lengths", false, show_v(&val)),
                    };
                    let (full, cut) = little(c, p, 0, n, Lin::k(0), 0, 0);
                    add("the first length is that of the base", num(st, &a, &full, &cut), format!("{} bytes read as {}", n, showl(&a)));
                    let (full, cut) = little(c, p, n, m, Lin::k(0), 0, 0);
                    add("the second length is that of the result", num(st, &b, &full, &cut), format!("{} bytes read as {}", m, showl(&b)));
                    add("as many bytes are consumed as the header has", end == Some(n + m), format!("{:?} instead of {}", end, n + m));
                }
                _ => {
                    let cmd = byte(c, p, 0);
                    if !ok {
                        return add("only the reserved command is refused", same(st, &lt(cmd), &Lin::k(0)), "a command is refused".into());
                    }
                    let some = match out {
                        V::Adt(a) => e.mem.expand(&a.f[0], 1),
                        _ => V::Undef,
                    };
                    let v = match (variant(e, st, &some).as_deref(), &some) {
                        (Some("Some"), V::Adt(a)) => a.f[0].clone(),
                        _ => return add("a command that is there is not taken for the end", false, "the end is reported".into()),
                    };
                    let bit = |st: &State, k: i128| {
                        let b = bits(cmd, k, 1);
                        if same(st, &b, &Lin::k(1)) {
                            Some(true)
                        } else if same(st, &b, &Lin::k(0)) {
                            Some(false)
                        } else {
                            None
                        }
                    };
                    let v = match &v {
                        V::Opq(t, ty) => {
                            let d = e.discr(st, &V::Opq(*t, *ty));
                            let k = e.prog.variants(*ty).and_then(|x| x.iter().position(|x| same(st, &d, &Lin::k(x.discr)))).unwrap_or(0);
                            e.mem.expand(&v, k as u32)
                        }
                        x => x.clone(),
                    };
                    match (bit(st, 7), variant(e, st, &v).as_deref()) {
                        (Some(true), Some("CopyFromBase")) => {
                            let (off, len) = match (field_of(e, &v, "offset"), field_of(e, &v, "len")) {
                                (Some(a), Some(b)) => (a, b),
                                _ => return add("a copy has an offset and a length", false, show_v(&v)),
                            };
                            let mut at = 1;
                            let mut num = |from: i128, n: i128| -> Option<Lin> {
                                let mut l = Lin::k(0);
                                for i in 0..n {
                                    if bit(st, from + i)? {
                                        l = l.add(&lt(byte(c, p, at)).scale(1i128 << (8 * i)));
                                        at += 1;
                                    }
                                }
                                Some(l)
                            };
                            let (o, l) = match (num(0, 4), num(4, 3)) {
                                (Some(o), Some(l)) => (o, l),
                                _ => return add("the bits of a copy are told apart", false, "the result does not depend on a bit of the command".into()),
                            };
                            add("the offset of a copy is that of the selected bytes", same(st, &off, &o), format!("{} instead of {}", showl(&off), showl(&o)));
                            let right = if same(st, &l, &Lin::k(0)) {
                                same(st, &len, &Lin::k(65536))
                            } else {
                                same(st, &len, &l) && st.implies(&F::ne(&l, &Lin::k(0)))
                            };
                            add("the length of a copy is that of the selected bytes", right, format!("{} instead of {}", showl(&len), showl(&l)));
                            add("as many bytes are consumed as the command has", end == Some(at), format!("{:?} instead of {}", end, at));
                        }
                        (Some(false), Some("CopyFromDelta")) => {
                            let len = field_of(e, &v, "len").unwrap_or(Lin::k(-1));
                            add("the length of an insertion is the command", same(st, &len, &lt(cmd)) && st.implies(&F::ne(&lt(cmd), &Lin::k(0))), showl(&len));
                            add("as many bytes are consumed as the command has", end == Some(1), format!("{:?} instead of 1", end));
                        }
                        (b, k) => add("the top bit tells copies and insertions apart", false, format!("{:?} for {:?}", k, b)),
                    }
                }
            }
        });
    }
    for (k, ok, why) in obs {
        r.add(&k, ok, "src/object/database/packed", &why);
    }
}
/// An integer field of a structure or variant.
fn field_of(e: &mut Engine, v: &V, name: &str) -> Option<Lin> {
    match v {
        V::Adt(a) => {
            let i = e.prog.variants(a.ty)?.get(a.var as usize)?.fields.iter().position(|f| f.name == name)?;
            Some(e.as_int(&a.f[i]))
        }
        _ => None,
    }
}

// ---------------------------------------------------------------- C15
/// Each command read is followed by one append of the bytes it addresses.
pub struct C15 {
    pub base: Option<V>,
    pub delta: Option<V>,
}
const DELTA_ERR: &str = "object::database::packed::delta::DeltaError";
fn rets(p: &Prog, f: FnId, what: &str) -> bool {
    p.fns[f].body.as_ref().map_or(false, |b| p.ts(b.locals[0]) == what)
}
impl Mon for C15 {
    fn ret(&mut self, e: &mut Engine, st: &mut State, f: FnId, v: &V) {
        let okv = match v {
            V::Adt(a) if a.var == 0 && a.f.len() == 1 => a.f[0].clone(),
            _ => return,
        };
        if rets(&e.prog, f, &format!("std::result::Result<object::database::packed::delta::DeltaHeader, {}>", DELTA_ERR)) {
            st.set_gv("c15:hdr", okv);
        } else if rets(&e.prog, f, &format!("std::result::Result<std::option::Option<object::database::packed::delta::Command>, {}>", DELTA_ERR)) {
            let pend = st.gh.get("c15:cmd").copied().unwrap_or(0);
            let dry = pend == 0;
            res(e, "apply_delta", "every command appends its bytes", dry, || "a command is read before the bytes of the last one are appended".into());
            let some = match &okv {
                V::Adt(a) => Some(a.var == 1),
                _ => None,
            };
            match (some, &okv) {
                (Some(true), V::Adt(a)) => {
                    st.set_gv("c15:c", a.f[0].clone());
                    if let Some(d) = self.delta.clone() {
                        if let Some((c, p, _)) = buffered(e, st, &d) {
                            st.set_gv("c15:p", V::Int(p));
                            let _ = c;
                        }
                    }
                    Rc::make_mut(&mut st.gh).insert("c15:cmd".into(), 1);
                }
                (Some(false), _) => {
                    Rc::make_mut(&mut st.gh).insert("c15:end".into(), 1);
                }
                _ => res(e, "apply_delta", "the commands are told apart", false, || "a command or the end".into()),
            }
        }
    }
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        if ev.what != "extend" {
            return;
        }
        let pend = st.gh.get("c15:cmd").copied().unwrap_or(0);
        if pend != 1 {
            return res(e, "apply_delta", "bytes are appended only for a command", false, || "no command asks for these bytes".into());
        }
        Rc::make_mut(&mut st.gh).insert("c15:cmd".into(), 0);
        let cmd = st.gv.get("c15:c").cloned().unwrap_or(V::Undef);
        let at = match st.gv.get("c15:p") {
            Some(V::Int(l)) => Some(l.clone()),
            _ => None,
        };
        let src = match &ev.v[1] {
            V::Slice(s) => s.clone(),
            _ => return,
        };
        let which = variant(e, st, &cmd);
        let (off, len) = (field_of(e, &cmd, "offset"), field_of(e, &cmd, "len"));
        let whole = |e: &mut Engine, st: &mut State, v: &V| {
            let s = e.sl(st, v);
            (e.mem.slice_content(st, &s), s.off.clone(), s.seq.c)
        };
        match (which.as_deref(), off, len) {
            (Some("CopyFromBase"), Some(off), Some(len)) => {
                let ok = match self.base.clone() {
                    Some(b) => {
                        let (_, o, q) = whole(e, st, &b);
                        q == src.seq.c && same(st, &src.off, &o.add(&off)) && same(st, &src.len, &len)
                    }
                    None => false,
                };
                res(e, "apply_delta", "a copy appends the addressed slice of the base", ok, || format!("[{};{}+{}] for offset {} length {}", show(src.seq.c), showl(&src.off), showl(&src.len), showl(&off), showl(&len)));
            }
            (Some("CopyFromDelta"), _, Some(len)) => {
                let ok = match (self.delta.clone(), at) {
                    (Some(d), Some(at)) => match buffered(e, st, &d) {
                        Some((c, p, _)) => {
                            let o = origin(&e.prog, c);
                            let s = origin(&e.prog, src.seq.c);
                            o.base == s.base && same(st, &s.off.add(&src.off), &o.off.add(&at)) && same(st, &src.len, &len) && same(st, &p, &at.add(&len))
                        }
                        None => false,
                    },
                    _ => false,
                };
                res(e, "apply_delta", "an insertion appends the bytes that follow the command", ok, || format!("[{};{}+{}] for length {}", show(src.seq.c), showl(&src.off), showl(&src.len), showl(&len)));
            }
            _ => res(e, "apply_delta", "the commands are told apart", false, || show_v(&cmd)),
        }
    }
}
/// An obligation of a component, whatever its functions are called.
fn res(e: &mut Engine, comp: &str, rule: &str, ok: bool, why: impl Fn() -> String) {
    let w = if ok { String::new() } else { format!("{} (reached through {})", why(), e.chain()) };
    e.oblige(format!("C15:{}:{}", comp, rule), ok, rule, w);
}
pub fn c15(prog: &Rc<Prog>, r: &mut Report) {
    let ret = format!("std::result::Result<(object::ObjectHeader, bytes::Bytes), {}>", DELTA_ERR);
    let fns: Vec<FnId> = (0..prog.fns.len()).filter(|f| rets(prog, *f, &ret) && prog.fns[*f].targs.iter().any(|t| prog.ts(*t) == "&[u8]")).collect();
    for f in fns {
        let mut e = engine(prog);
        e.arb = true;
        e.root = prog.fns[f].path.clone();
        r.roots.push(prog.fns[f].inst.clone());
        let mut kind = V::Undef;
        let mut base = V::Undef;
        let outs = e.run_root(f, &mut |e, _st, tys| {
            let vs: Vec<V> = tys.iter().map(|t| e.mem.fresh("arg", *t)).collect();
            let mut m = C15 { base: None, delta: None };
            for (v, t) in vs.iter().zip(tys) {
                let s = e.prog.ts(*t).to_string();
                if s.contains("Buffer") {
                    m.delta = Some(v.clone());
                } else if s.contains("[u8]") || s.contains("Bytes") {
                    m.base = Some(v.clone());
                    base = v.clone();
                } else if s.contains("ObjectKind") {
                    kind = v.clone();
                }
            }
            e.mon = Some(Box::new(m));
            vs
        });
        for (mut s, v) in outs {
            if s.fx.bot {
                continue;
            }
            let v = match &v {
                V::Adt(a) if a.var == 1 => continue,
                V::Adt(a) => e.mem.expand(&a.f[0], 0),
                _ => V::Undef,
            };
            let st = &mut s;
            let pair = match &v {
                V::Adt(a) if a.f.len() == 2 => (a.f[0].clone(), a.f[1].clone()),
                _ => {
                    r.add("C15:apply_delta:the outcome is decided", false, "", &show_v(&v));
                    continue;
                }
            };
            let hdr = st.gv.get("c15:hdr").cloned().unwrap_or(V::Undef);
            let (bl, rl) = (field_of(&mut e, &hdr, "base_len"), field_of(&mut e, &hdr, "result_len"));
            let hl = field(&mut e, st, &pair.0, "len").map(|x| e.as_int(&x));
            let hk = field(&mut e, st, &pair.0, "kind");
            let out = e.sl(st, &pair.1);
            let b = e.sl(st, &base);
            let is = |st: &State, a: &Option<Lin>, b: &Lin| a.as_ref().map_or(false, |a| same(st, a, b));
            r.add("C15:apply_delta:the result has the declared length", is(st, &rl, &out.len) && is(st, &hl, &out.len), "src/object/database/packed/delta.rs", "a result of another length is returned");
            r.add("C15:apply_delta:the base has the declared length", is(st, &bl, &b.len), "src/object/database/packed/delta.rs", "a base of another length is accepted");
            let end = st.gh.get("c15:end").copied() == Some(1) && st.gh.get("c15:cmd").copied().unwrap_or(0) == 0;
            r.add("C15:apply_delta:all commands are applied", end, "src/object/database/packed/delta.rs", "success is possible before the end of the delta");
            let k = hk.map_or(false, |k| {
                let (x, y) = (e.discr(st, &k), e.discr(st, &kind));
                same(st, &x, &y)
            });
            r.add("C15:apply_delta:the kind is that of the base", k, "src/object/database/packed/delta.rs", "another kind is returned");
        }
        r.take(&e, "C15:");
    }
    chain(prog, r);
    // the end of the commands
    for have in 0..9 {
        let fns: Vec<FnId> = (0..prog.fns.len()).filter(|f| rets(prog, *f, &format!("std::result::Result<std::option::Option<object::database::packed::delta::Command>, {}>", DELTA_ERR)) && prog.fns[*f].inst.contains("&[u8]")).collect();
        decoder_at_end(prog, r, &fns, have, &mut |r, e, st, c, p, out| {
            let cmd = byte(c, p, 0);
            let is_none = match out {
                V::Adt(a) if a.var == 0 => match variant(e, st, &a.f[0]).as_deref() {
                    Some("None") => Some(true),
                    Some("Some") => Some(false),
                    _ => None,
                },
                _ => Some(false),
            };
            let is_err = matches!(out, V::Adt(a) if a.var == 1);
            let at = "src/object/database/packed/delta.rs";
            if have == 0 {
                r.add("C15:read_command:the end of the delta ends the commands", is_none == Some(true), at, "the end is not reported");
            } else {
                r.add("C15:read_command:a cut-off command is not taken for the end", is_none == Some(false), at, &format!("the end is reported with {} bytes left", have));
                if same(st, &lt(cmd), &Lin::k(0)) {
                    r.add("C15:read_command:the reserved command is refused", is_err, at, "accepted");
                }
            }
        });
    }
}

/// The deltas of a chain are applied to what the previous one gave, the last one found first.
pub struct Chain;
fn pair_of(e: &mut Engine, v: &V) -> Option<(V, V)> {
    let a = match v {
        V::Adt(a) if a.var == 0 && a.f.len() == 1 => e.mem.expand(&a.f[0], 0),
        _ => return None,
    };
    let (mut h, mut b) = (None, None);
    if let V::Adt(a) = &a {
        let tys = e.prog.variants(a.ty).and_then(|v| v.first()).map(|v| v.fields.iter().map(|f| f.ty).collect::<Vec<_>>());
        let tys = match (tys, e.prog.k(a.ty)) {
            (Some(t), _) => t,
            (None, TK::Tuple(t)) => t.clone(),
            _ => return None,
        };
        for (x, t) in a.f.iter().zip(tys) {
            match e.prog.ts(t) {
                "object::ObjectHeader" => h = Some(x.clone()),
                "bytes::Bytes" => b = Some(x.clone()),
                _ => {}
            }
        }
    }
    Some((h?, b?))
}
fn content_is(e: &mut Engine, st: &mut State, a: &V, b: &V) -> bool {
    let (x, y) = (e.content(st, a), e.content(st, b));
    let (p, q) = (e.sl(st, a), e.sl(st, b));
    x == y || (p.seq.c == q.seq.c && same(st, &p.off, &q.off) && same(st, &p.len, &q.len))
}
impl Mon for Chain {
    fn enter(&mut self, e: &mut Engine, st: &mut State, f: FnId, args: &[V]) {
        if !rets(&e.prog, f, &format!("std::result::Result<(object::ObjectHeader, bytes::Bytes), {}>", DELTA_ERR)) {
            return;
        }
        let (h, b) = match (st.gv.get("c15:h").cloned(), st.gv.get("c15:b").cloned()) {
            (Some(h), Some(b)) => (h, b),
            _ => return res(e, "chain", "a delta is applied to the object found before it", false, || "no object has been found".into()),
        };
        let tys: Vec<Ty> = e.prog.fns[f].body.as_ref().unwrap().locals[1..].to_vec();
        for (v, t) in args.iter().zip(tys) {
            let s = e.prog.ts(t).to_string();
            if s == "&[u8]" || s.contains("Bytes") {
                let ok = content_is(e, st, v, &b);
                res(e, "chain", "a delta is applied to the object found before it", ok, || "the base is not the object found last".into());
            } else if s == "object::ObjectKind" {
                let k = field(e, st, &h, "kind").unwrap_or(V::Undef);
                let (x, y) = (e.discr(st, &k), e.discr(st, v));
                let ok = same(st, &x, &y);
                res(e, "chain", "the kind is that of the object found before", ok, || "another kind is passed on".into());
            }
        }
    }
    fn ret(&mut self, e: &mut Engine, st: &mut State, f: FnId, v: &V) {
        let t = e.prog.fns[f].body.as_ref().map(|b| e.prog.ts(b.locals[0]).to_string()).unwrap_or_default();
        if t.starts_with("std::result::Result<(") && t.contains("object::ObjectHeader, bytes::Bytes)") {
            if let Some((h, b)) = pair_of(e, v) {
                st.set_gv("c15:h", h);
                st.set_gv("c15:b", b);
            }
        }
    }
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        match (ev.what, ev.v.last()) {
            ("push", Some(V::Adt(a))) if e.prog.adt_path(a.ty).contains("database::packed::") => {
                Rc::make_mut(&mut st.gh).insert("c15:pushed".into(), 1);
            }
            ("item", Some(V::Adt(a))) if e.prog.adt_path(a.ty).contains("database::packed::") => {
                let (p, t) = (st.gh.get("c15:pushed").copied().unwrap_or(0), e.prog.adt_path(a.ty).to_string());
                let ok = p == 0 || ev.s == "back";
                res(e, "chain", "the delta nearest the base comes first", ok, || format!("the {} found first is taken first", t));
            }
            _ => {}
        }
    }
}
fn holds(e: &mut Engine, st: &mut State, v: &V, b: &V, depth: u32) -> bool {
    if depth == 0 {
        return false;
    }
    match v {
        V::Adt(a) => a.f.clone().iter().any(|x| holds(e, st, x, b, depth - 1)),
        V::Seq(_) | V::Slice(_) => content_is(e, st, v, b),
        V::Ref(_) => {
            let x = e.mem.deref_all(st, v);
            !matches!(x, V::Ref(_)) && holds(e, st, &x, b, depth - 1)
        }
        V::Opq(t, _) => {
            let c = e.content(st, b);
            c == *t
        }
        _ => false,
    }
}
fn chain(prog: &Rc<Prog>, r: &mut Report) {
    let mut e = engine(prog);
    e.mon = Some(Box::new(Chain));
    let mut obs = vec![];
    component(
        &mut e,
        r,
        &|p, x| {
            let (a, o) = sig(p, x);
            a.iter().any(|x| x.contains("IndexFile")) && a.iter().any(|x| x.contains("PackFile")) && o.contains("ObjectReader") && o.contains("Result<")
        },
        &mut |_, _, _| {},
        &mut |e, st, _, _, out| {
            if let V::Adt(a) = out {
                if a.var == 0 {
                    let b = st.gv.get("c15:b").cloned();
                    let ok = b.map_or(false, |b| holds(e, st, &a.f[0].clone(), &b, 8));
                    obs.push(("C15:chain:the object returned is the result of the last delta".to_string(), ok, format!("{}", show_v(&a.f[0]))));
                }
            }
        },
    );
    for (k, ok, w) in obs {
        r.add(&k, ok, "src/object/database/packed/pack.rs", &w);
    }
    r.take(&e, "C15:");
}
