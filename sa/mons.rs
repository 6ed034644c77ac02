// The monitors: what each property says about the events of a run of a public operation.
use crate::exec::*;
use crate::prog::*;
use crate::term::*;
use crate::val::*;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

pub fn lcheck(e: &mut Engine, prop: &str, rule: &str, ok: bool, why: impl Fn() -> String) {
    let key = format!("{}:{}:{}", prop, e.here(), rule);
    let w = if ok { String::new() } else { format!("{} (reached through {})", why(), e.chain()) };
    e.oblige(key, ok, rule, w);
}
pub fn opq(e: &mut Engine, st: &mut State, v: &V) -> Option<T> {
    match e.mem.deref_all(st, v) {
        V::Opq(t, _) => Some(t),
        _ => None,
    }
}
/// Whether an I/O error is known to be of one of these kinds.
pub fn kind_in(e: &mut Engine, st: &mut State, err: &V, names: &[&str]) -> bool {
    let t = match opq(e, st, err) {
        Some(t) => t,
        None => return false,
    };
    let ks = match &e.prog.errkinds {
        Some(k) => k.clone(),
        None => return false,
    };
    let d = lt(app("discr", vec![app("errkind", vec![t])]));
    let mut any = F::F;
    for n in names {
        if let Some(k) = ks.get(*n) {
            any = F::or(&any, &F::eq(&d, &Lin::k(*k)));
        }
    }
    st.implies(&any)
}
/// Some(true) for Ok, Some(false) for Err; None when it is not a result or not known.
pub fn is_ok(e: &Engine, v: &V, rty: Ty) -> Option<bool> {
    if e.prog.adt_path(rty) != "std::result::Result" {
        return Some(true);
    }
    match v {
        V::Adt(a) => Some(a.var == 0),
        _ => None,
    }
}
fn is_write_op(op: &str) -> bool {
    (op.starts_with("open:") && op != "open:read")
        || matches!(op, "create_dir" | "create_dir_all" | "rename" | "remove_file" | "remove_dir" | "remove_dir_all" | "set_file_mtime" | "set_file_times" | "set_file_atime" | "set_len" | "set_permissions" | "hard_link" | "soft_link" | "symlink" | "copy" | "write")
}

// ---------------------------------------------------------------- C04
pub struct C04;
fn c04_allowed(op: &str) -> &'static [&'static str] {
    match op {
        "open:read" | "read_dir" | "metadata" | "lstat" | "try_exists" => &["NotFound"],
        "create_dir" => &["AlreadyExists"],
        "read" | "write" | "write_all" | "seek" | "flush" => &["Interrupted"],
        o if o.starts_with("open:") => &["AlreadyExists"],
        _ => &[],
    }
}
/// Whether the term occurs in the value.
fn occurs(v: &V, t: T) -> bool {
    match v {
        V::Adt(a) => a.f.iter().any(|x| occurs(x, t)),
        V::Opq(o, _) => *o == t || deep(*o).contains(&t),
        _ => false,
    }
}
/// Whether a result is known to be a success.
fn known_ok(st: &State, v: &V) -> bool {
    match v {
        V::Adt(a) => a.var == 0,
        V::Opq(t, _) => st.implies(&F::eq(&lt(app("discr", vec![*t])), &Lin::k(0))),
        _ => false,
    }
}
impl C04 {
    fn elem(&self, e: &mut Engine, st: &mut State, bad: bool) {
        if let Some(v) = st.gv.get("c4elem").cloned() {
            if bad {
                lcheck(e, "C04", "a result taken from a collection is inspected or handed on", false, || format!("{:?} may be a failure and is dropped", v));
            }
            st.del_gv("c4elem");
            st.set_g("c4elem", 0);
        }
    }
    /// The failures inside the value are in a collection of results from here on.
    fn carried(&self, st: &mut State, v: &V) {
        for k in st.gh.keys().filter(|k| k.starts_with("c4:")).cloned().collect::<Vec<_>>() {
            if matches!(st.gv.get(&k), Some(V::Opq(t, _)) if occurs(v, *t)) {
                st.set_g(&k, 0);
                st.del_gv(&k);
            }
        }
    }
    fn sweep(&self, e: &mut Engine, st: &mut State) {
        if let Some(v) = st.gv.get("c4elem").cloned() {
            if known_ok(st, &v) {
                self.elem(e, st, false);
            }
        }
        let ks: Vec<String> = st.gh.keys().filter(|k| k.starts_with("c4:")).cloned().collect();
        for k in ks {
            let op = k.split('|').next().unwrap_or("")[3..].to_string();
            let a = c04_allowed(&op);
            if a.is_empty() {
                continue;
            }
            let v = st.gv.get(&k).cloned().unwrap_or(V::Undef);
            if kind_in(e, st, &v, a) {
                st.set_g(&k, 0);
                st.del_gv(&k);
            }
        }
    }
}
impl Mon for C04 {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        match ev.what {
            "err" if !matches!(ev.s.as_str(), "remove_file" | "set_file_mtime" | "set_file_times") => {
                self.sweep(e, st);
                let k = format!("c4:{}|{}", ev.s, e.here());
                st.set_g(&k, 1);
                st.set_gv(&k, ev.v[0].clone());
                lcheck(e, "C04", &format!("{} failure is tracked to the result", ev.s), true, String::new);
            }
            // failures handed on inside a collection of results
            "elem" => {
                self.sweep(e, st);
                self.elem(e, st, true);
                if !known_ok(st, &ev.v[0]) {
                    st.set_gv("c4elem", ev.v[0].clone());
                    st.set_g("c4elem", 1);
                }
            }
            "elem_end" => {
                self.sweep(e, st);
                self.elem(e, st, true);
            }
            "collected" | "push" => {
                self.sweep(e, st);
                let v = ev.v.last().unwrap().clone();
                if st.gv.get("c4elem") == Some(&v) {
                    self.elem(e, st, false);
                }
                if matches!(&v, V::Adt(a) if a.var == 1 && e.prog.adt_path(a.ty) == "std::result::Result") {
                    self.carried(st, &v);
                }
            }
            "drop" if ev.s.starts_with("std::vec::Vec<std::result::Result<") => {
                lcheck(e, "C04", "a collection of results is not thrown away", false, || "results that may be failures are dropped".into());
            }
            "root_return" => {
                self.sweep(e, st);
                let rty = e.root_ty;
                let ok = is_ok(e, &ev.v[0], rty) != Some(false);
                self.elem(e, st, ok);
                let pend: Vec<String> = st.gh.keys().filter(|k| k.starts_with("c4:")).cloned().collect();
                if pend.is_empty() {
                    e.oblige(format!("C04:{}:success only without a pending failure", ev.s), true, "", String::new());
                }
                for k in pend {
                    let (op, at) = k[3..].split_once('|').unwrap();
                    e.oblige(format!("C04:{}:failed {} in {} reported", ev.s, op, at), !ok, "failure is reported", format!("{} can return a success although `{}` failed in {}", ev.s, op, at));
                }
            }
            _ => {}
        }
    }
    fn normalise(&mut self, e: &mut Engine, st: &mut State) {
        self.sweep(e, st);
    }
    fn ret(&mut self, e: &mut Engine, st: &mut State, _f: FnId, v: &V) {
        self.sweep(e, st);
        if let V::Seq(q) = v {
            if let Tpl::V(t) = &q.tpl {
                if matches!(&t.v, V::Adt(a) if a.var == 1 && e.prog.adt_path(a.ty) == "std::result::Result") {
                    self.carried(st, &t.v.clone());
                }
            }
        }
    }
}

// ---------------------------------------------------------------- C05
pub struct C05;
impl C05 {
    fn sweep(&self, e: &mut Engine, st: &mut State) {
        for (k, from, to) in [("c5:open", 1, 2), ("c5:rd", 3, 5)] {
            if let Some(v) = st.gv.get(k).cloned() {
                if kind_in(e, st, &v, &["NotFound"]) {
                    st.del_gv(k);
                    st.set_g(&format!("{}?", k), 0);
                    if st.g("c5") == from {
                        st.set_g("c5", to);
                    }
                }
            }
        }
    }
}
impl Mon for C05 {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        self.sweep(e, st);
        let ph = st.g("c5");
        match (ev.what, ev.s.as_str()) {
            ("map_end", _) => match ph {
                0 => st.set_g("c5", 1),
                4 => st.set_g("c5", 5),
                _ => {}
            },
            ("err", "open:read") => {
                st.set_gv("c5:open", ev.v[0].clone());
                st.set_g("c5:open?", 1);
            }
            ("fs", "read_dir") if ph == 2 => st.set_g("c5", 3),
            ("err", "read_dir") => {
                st.set_gv("c5:rd", ev.v[0].clone());
                st.set_g("c5:rd?", 1);
            }
            ("err", op) if !matches!(op, "read" | "seek") => st.set_g("c5:other", 1),
            ("dir_end", _) if ph == 3 => st.set_g("c5", 4),
            ("root_return", _) if ev.s.ends_with("ObjectDatabase::parse_object") || ev.s.ends_with("ObjectDatabase::read_object") => {
                let er = match &ev.v[0] {
                    V::Adt(a) if a.var == 1 => a.f[0].clone(),
                    _ => return,
                };
                let f = match e.prog.fns.iter().position(|f| f.path == "object::ReadObjectError::is_not_found" && f.body.is_some()) {
                    Some(f) => f,
                    None => {
                        e.oblige("C05:anchor:is_not_found exists".into(), false, "", "ReadObjectError::is_not_found is gone".into());
                        return;
                    }
                };
                let ety = match e.prog.k(e.root_ty) {
                    TK::Adt { args, .. } => args[1],
                    _ => u32::MAX,
                };
                let mut z = st.clone();
                let r = e.mem.temp_ref(&mut z, er, ety);
                for (s, b) in e.exec_fn(z, f as FnId, vec![r]) {
                    let t = match &b {
                        V::Bool(f) => !s.implies(&f.not()),
                        _ => true,
                    };
                    if t {
                        let bad = s.g("c5:open?") != 0 || s.g("c5:rd?") != 0 || s.g("c5:other") != 0;
                        e.oblige(format!("C05:{}:not found only after packs, loose file and a rescan", ev.s), ph >= 5 || st.g("c5") >= 5, "", format!("not-found is reported after step {} of 5 (known packs, loose file absent, directory listed, list complete, packs again)", st.g("c5")));
                        e.oblige(format!("C05:{}:other failures are not reported as not found", ev.s), !bad, "", "an error that is not known to be not-found is reported as not found".into());
                    } else {
                        e.oblige(format!("C05:{}:failure is not a not-found", ev.s), true, "", String::new());
                    }
                }
            }
            _ => {}
        }
    }
    fn normalise(&mut self, e: &mut Engine, st: &mut State) {
        self.sweep(e, st);
    }
    fn ret(&mut self, e: &mut Engine, st: &mut State, _f: FnId, _v: &V) {
        self.sweep(e, st);
    }
}

// ---------------------------------------------------------------- C06, C07 (writes), C25
pub struct Writes {
    pub p6: bool,
    pub p7: bool,
    pub p25: bool,
}
/// The parts of `x.join(a).join(b)`.
pub fn path_parts(t: T) -> Vec<T> {
    match is_app(t, "pjoin") {
        Some(a) => {
            let mut r = path_parts(a[0]);
            r.push(a[1]);
            r
        }
        None => vec![t],
    }
}
/// Whether a path ends in xx/yyyy.. of the hexadecimal form of an id; its bytes.
pub fn hash_path(t: T) -> Option<T> {
    let p = path_parts(t);
    if p.len() < 2 {
        return None;
    }
    let (a, b) = (is_app(p[p.len() - 2], "sl")?, is_app(p[p.len() - 1], "sl")?);
    let h = is_app(a[0], "hexenc")?;
    if a[0] != b[0] {
        return None;
    }
    let c = |t: T| tl_const(t);
    if c(a[1])? == 0 && c(a[2])? == 2 && c(b[1])? == 2 && c(b[2])? == 38 {
        return Some(h[0]);
    }
    None
}
pub fn tl_const(t: T) -> Option<i128> {
    lt(t).is_const()
}
impl Writes {
    fn path(&self, e: &mut Engine, st: &mut State, v: &V) -> T {
        e.content(st, v)
    }
    fn same(&self, e: &mut Engine, st: &mut State, k: &str, t: T) -> bool {
        match st.gv.get(k).cloned() {
            Some(v) => e.content(st, &v) == t,
            None => false,
        }
    }
}
impl Mon for Writes {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        let root = e.root.clone();
        let writer = root.ends_with("write_object");
        if ev.what == "unknown" {
            let p = ev.s.as_str();
            if self.p7 && (p.starts_with("std::fs::") || p.starts_with("fs_err::") || p.starts_with("filetime::") || p.starts_with("std::process::") || p.starts_with("std::os::unix::fs")) {
                lcheck(e, "C07", "file-system call is known", false, || format!("call of {} has an unknown effect on the file system", p));
            }
        }
        match (ev.what, ev.s.as_str()) {
            ("fs", op) => {
                let w = is_write_op(op);
                if self.p7 {
                    if w && !writer {
                        lcheck(e, "C07", &format!("{} only while writing an object", op), false, || format!("{} performs `{}`", root, op));
                    } else if !w {
                        lcheck(e, "C07", &format!("{} does not modify", op), true, String::new);
                    }
                }
                if !writer || !w {
                    return;
                }
                let a = self.path(e, st, &ev.v[0]);
                if self.p7 {
                    let known = matches!(op, "create_dir" | "set_file_mtime" | "rename" | "remove_file" | "open:write,create_new" | "open:read,write,create_new");
                    lcheck(e, "C07", "only the effects of writing an object", known, || format!("`{}` is not an effect writing an object may have", op));
                    match op {
                        "create_dir" => {
                            let p = path_parts(a);
                            let l = is_app(p[p.len() - 1], "sl").map_or(false, |x| is_app(x[0], "hexenc").is_some() && tl_const(x[1]) == Some(0) && tl_const(x[2]) == Some(2));
                            lcheck(e, "C07", "only the fan-out directory is created", l && p.len() == 2, || format!("creates {}", show(a)));
                        }
                        "set_file_mtime" => {
                            let h = hash_path(a).is_some();
                            let ex = self.same(e, st, "w:exists", a);
                            lcheck(e, "C07", "only the timestamp of the existing object is refreshed", h && ex, || format!("refreshes {}", show(a)));
                        }
                        "remove_file" => {
                            let own = self.same(e, st, "w:temp", a) && st.g("w:renamed") == 0;
                            lcheck(e, "C07", "only the own temporary file is removed", own, || format!("removes {}", show(a)));
                        }
                        "rename" => {
                            let own = self.same(e, st, "w:temp", a);
                            let b = self.path(e, st, &ev.v[1]);
                            lcheck(e, "C07", "only the own temporary file is renamed, to the object", own && hash_path(b).is_some(), || format!("renames {} to {}", show(a), show(b)));
                        }
                        _ => {}
                    }
                }
                if op.starts_with("open:") {
                    let h = hash_path(a).is_some();
                    if self.p6 {
                        lcheck(e, "C06", "the object path is never opened for writing", !h, || format!("opens {} for writing", show(a)));
                        lcheck(e, "C06", "the temporary file is created new", op.contains("create_new"), || format!("`{}` can open a file that another writer is using, or that one left behind", op));
                        let p = path_parts(a);
                        let indir = p.len() == 3 && is_app(p[1], "sl").map_or(false, |x| is_app(x[0], "hexenc").is_some());
                        lcheck(e, "C06", "temporary file lies beside the object", indir, || format!("temporary file {}", show(a)));
                    }
                    if self.p7 {
                        lcheck(e, "C07", "files are only created new", op.contains("create_new"), || format!("`{}` can open an existing file for writing", op));
                    }
                }
                if op == "rename" {
                    let b = self.path(e, st, &ev.v[1]);
                    if self.p6 {
                        let own = self.same(e, st, "w:temp", a);
                        lcheck(e, "C06", "rename source is the temporary file", own, || format!("renames {}", show(a)));
                        lcheck(e, "C06", "all bytes are written before the rename", st.g("w:written") == 2, || "the rename is reached before write_all of all the bytes succeeded".into());
                        lcheck(e, "C06", "the compressor is finished before the rename", st.g("w:finished") == 1, || "the rename is reached before the compressor was finished".into());
                        lcheck(e, "C06", "the data is synced before the rename", st.g("w:synced") == 1, || "the rename is reached before sync_all succeeded".into());
                    }
                    if self.p25 {
                        let want = st.gv.get("w:arg").cloned();
                        let ok = match (hash_path(b), want) {
                            (Some(h), Some(w)) => self.is_hash(e, st, h, &w),
                            _ => false,
                        };
                        lcheck(e, "C25", "stored under the hash of its bytes", ok, || format!("the object is stored as {}", show(b)));
                        let ex = self.same(e, st, "w:absent", b);
                        lcheck(e, "C25", "an existing object is left untouched", ex, || "the object path is replaced without having been checked to be absent".into());
                        lcheck(e, "C25", "the bytes are zlib-compressed", st.g("w:zlib") == 1, || "no zlib encoder wraps the temporary file".into());
                        lcheck(e, "C25", "exactly the bytes given are stored", st.g("w:written") == 2 && st.g("w:extra") == 0, || "what is written is not exactly the bytes given".into());
                    }
                }
            }
            ("exists_true", _) => {
                let a = self.path(e, st, &ev.v[0]);
                let v = e.bytes_of(a);
                st.set_gv("w:exists", v);
                st.set_g("w:exists", 1);
            }
            ("exists_false", _) => {
                let a = self.path(e, st, &ev.v[0]);
                let v = e.bytes_of(a);
                st.set_gv("w:absent", v);
                st.set_g("w:exists", 0);
            }
            ("ok", op) if op.starts_with("open:") && op != "open:read" => {
                let a = self.path(e, st, &ev.v[1]);
                let v = e.bytes_of(a);
                st.set_gv("w:temp", v);
                for k in ["w:written", "w:finished", "w:synced", "w:extra"] {
                    st.set_g(k, 0);
                }
            }
            ("wrap", p) if writer => st.set_g("w:zlib", p.contains("ZlibEncoder") as i64),
            ("ok", "write_all") if writer => {
                let w = st.gv.get("w:arg").cloned();
                let c = e.content(st, &ev.v[2]);
                let full = match w {
                    Some(w) => e.content(st, &w) == c,
                    None => false,
                };
                if st.g("w:written") != 0 || st.g("w:finished") != 0 {
                    st.set_g("w:extra", 1);
                }
                st.set_g("w:written", if full { 2 } else { 1 });
            }
            ("ok", "write") if writer => st.set_g("w:extra", 1),
            ("ok", "finish") | ("ok", "try_finish") if st.g("w:written") != 0 => st.set_g("w:finished", 1),
            ("ok", "sync_all") | ("ok", "sync_data") if st.g("w:finished") != 0 => st.set_g("w:synced", 1),
            ("ok", "rename") => st.set_g("w:renamed", 1),
            ("ok", "open:read") if self.p25 && root.contains("ObjectDatabase::") => {
                let a = self.path(e, st, &ev.v[1]);
                let want = st.gv.get("w:arg").cloned();
                if let (Some(h), Some(w)) = (hash_path(a), want) {
                    let id = e.content(st, &w);
                    lcheck(e, "C25", "the file opened for an id is named by that id", h == id, || format!("opens the file of {} for the id {}", show(h), show(id)));
                }
            }
            ("fs", "open:read") => {}
            ("root_return", p) if writer => {
                let ok = is_ok(e, &ev.v[0], e.root_ty);
                if self.p6 {
                    let done = st.g("w:renamed") == 1 || st.g("w:exists") == 1;
                    e.oblige(format!("C06:{}:success only after the rename or when the object exists", p), ok == Some(false) || done, "", "success can be returned although the object was neither renamed into place nor already there".into());
                    e.oblige(format!("C06:{}:nothing is published by a failed write", p), ok != Some(false) || st.g("w:renamed") == 0, "", "an error can be returned after the object was renamed into place".into());
                }
                if self.p25 && ok != Some(false) {
                    let id = match &ev.v[0] {
                        V::Adt(a) => a.f[0].clone(),
                        v => v.clone(),
                    };
                    let b = self.id_bytes(e, st, &id);
                    let want = st.gv.get("w:arg").cloned();
                    let good = match (b, want) {
                        (Some(b), Some(w)) => self.is_hash(e, st, b, &w),
                        _ => false,
                    };
                    e.oblige(format!("C25:{}:returned id is the hash of the bytes", p), good, "", format!("returns {}", crate::checks::show_v(&id)));
                    if st.g("w:exists") == 1 && st.g("w:renamed") == 0 {
                        let ex = st.gv.get("w:exists").cloned();
                        let t = ex.map(|v| e.content(st, &v));
                        let want = st.gv.get("w:arg").cloned();
                        let ok = match (t.and_then(hash_path), want) {
                            (Some(h), Some(w)) => self.is_hash(e, st, h, &w),
                            _ => false,
                        };
                        e.oblige(format!("C25:{}:the object found to exist is the one to write", p), ok, "", "success is returned because some other file exists".into());
                    }
                }
            }
            _ => {}
        }
    }
}
impl Writes {
    pub fn id_bytes(&self, e: &mut Engine, st: &mut State, id: &V) -> Option<T> {
        let v = e.mem.deref_all(st, id);
        match &v {
            V::Adt(a) if a.f.len() == 1 => Some(e.content(st, &a.f[0].clone())),
            V::Opq(t, ty) => {
                let x = e.mem.expand(&V::Opq(*t, *ty), 0);
                match &x {
                    V::Adt(a) if a.f.len() == 1 => Some(e.content(st, &a.f[0].clone())),
                    _ => None,
                }
            }
            _ => None,
        }
    }
    /// h = SHA-1 of the argument
    fn is_hash(&self, e: &mut Engine, st: &mut State, h: T, arg: &V) -> bool {
        let c = e.content(st, arg);
        let want = app("sha_final", vec![app("sha", vec![app("sha_new", vec![]), c])]);
        h == want || is_app(h, "bytes_of").map_or(false, |a| a[0] == want)
    }
}

// ---------------------------------------------------------------- C08
pub struct C08;
fn hint_is_db(t: T) -> bool {
    show(t).starts_with("db#")
}
fn is_base(t: T) -> bool {
    if is_fresh(t) {
        return false;
    }
    let d = show(t);
    // only fields of the database handle
    let mut x = t;
    loop {
        if let Some(a) = is_app(x, "fld") {
            x = a[0];
        } else if let Some(a) = is_app(x, "deref") {
            x = a[0];
        } else {
            break;
        }
    }
    let _ = d;
    hint_is_db(x)
}
fn normal(e: &mut Engine, st: &State, t: T) -> bool {
    if let Some(b) = lit_of(t) {
        let s = String::from_utf8_lossy(&b).to_string();
        return !s.starts_with('/') && !s.is_empty() && s.split('/').all(|c| c != "..");
    }
    if st.implies(&F::atom(ranged(app("allnormal", vec![t]), (0, 1)))) {
        return true;
    }
    if let Some(a) = is_app(t, "sl") {
        return is_app(a[0], "hexenc").is_some();
    }
    if is_app(t, "hexenc").is_some() || is_app(t, "entry_name").is_some() {
        return true;
    }
    if let Some(a) = is_app(t, "pjoin") {
        return normal(e, st, a[0]) && normal(e, st, a[1]);
    }
    // a name made of fixed words without separators and of numbers
    is_app(t, "formatted").map_or(false, |a| a.len() >= 2 && a[1..].iter().all(|x| lit_of(*x).map_or(true, |b| !b.contains(&b'/') && !b.contains(&b'?') && !b.windows(2).any(|w| w == b".."))))
}
fn below(e: &mut Engine, st: &State, t: T) -> bool {
    if is_base(t) {
        return true;
    }
    if let Some(a) = is_app(t, "pjoin") {
        return below(e, st, a[0]) && normal(e, st, a[1]);
    }
    if let Some(a) = is_app(t, "with_extension") {
        return below(e, st, a[0]) && lit_of(a[1]).map_or(false, |b| !b.contains(&b'/'));
    }
    if let Some(a) = is_app(t, "entry_path") {
        if let Some(d) = is_app(a[0], "direntry") {
            if let Some(x) = is_app(d[0], "dir") {
                return below(e, st, x[0]);
            }
        }
    }
    false
}
impl Mon for C08 {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        if ev.what == "fs" && (ev.s.starts_with("open:") || matches!(ev.s.as_str(), "read_dir" | "exists" | "metadata" | "lstat" | "is_dir" | "is_file" | "read" | "read_to_string" | "read_link" | "canonicalize" | "try_exists")) {
            if e.root.ends_with("::open") {
                return;
            }
            let t = e.content(st, &ev.v[0]);
            let mut ok = below(e, st, t);
            if !ok {
                // a path kept by the monitor across a join
                if let Some(v) = st.gv.get("c8").cloned() {
                    ok = e.content(st, &v) == t;
                }
            }
            let op = ev.s.clone();
            lcheck(e, "C08", &format!("{} stays below the repository", op), ok, || format!("`{}` of {}", op, show(t)));
        }
    }
}

// ---------------------------------------------------------------- C09
#[derive(Default)]
pub struct C09 {
    pub edges: BTreeMap<(String, String), String>,
}
fn lname(s: &str) -> String {
    s.to_string()
}
impl Mon for C09 {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        match ev.what {
            "lock" => {
                let k = format!("L:{}", lname(&ev.s));
                let held: Vec<String> = st.gh.iter().filter(|(x, v)| x.starts_with("L:") && **v > 0).map(|(x, _)| x.clone()).collect();
                let again = held.contains(&k);
                lcheck(e, "C09", &format!("{} not already held", &k[2..]), !again, || format!("{} is acquired while it is already held", &k[2..]));
                if e.dry == 0 {
                    for h in held {
                        if h != k {
                            let at = format!("{} ({})", e.here(), e.chain());
                            self.edges.entry((h[2..].to_string(), k[2..].to_string())).or_insert(at);
                        }
                    }
                }
                let n = st.g(&k);
                st.set_g(&k, n + 1);
            }
            "unlock" => {
                let k = format!("L:{}", lname(&ev.s));
                let n = st.g(&k);
                st.set_g(&k, (n - 1).max(0));
            }
            "root_return" => {
                let held: Vec<String> = st.gh.iter().filter(|(x, v)| x.starts_with("L:") && **v > 0).map(|(x, _)| x[2..].to_string()).collect();
                e.oblige(format!("C09:{}:no lock held at return", ev.s), held.is_empty(), "", format!("{} returns while holding {}", ev.s, held.join(", ")));
                // the order must be acyclic
                let mut reach: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
                for (a, b) in self.edges.keys() {
                    reach.entry(a.clone()).or_default().insert(b.clone());
                }
                loop {
                    let mut more = vec![];
                    for (a, bs) in &reach {
                        for b in bs {
                            for c in reach.get(b).into_iter().flatten() {
                                if !bs.contains(c) {
                                    more.push((a.clone(), c.clone()));
                                }
                            }
                        }
                    }
                    if more.is_empty() {
                        break;
                    }
                    for (a, c) in more {
                        reach.entry(a).or_default().insert(c);
                    }
                }
                for ((a, b), at) in self.edges.clone() {
                    let cyc = reach.get(&b).map_or(false, |x| x.contains(&a));
                    e.oblige(format!("C09:order:{} before {}", a, b), !cyc, "lock order", format!("{} is acquired under {} in {}, and elsewhere in the opposite order", b, a, at));
                }
            }
            _ => {}
        }
    }
}

// ---------------------------------------------------------------- C10
pub struct C10;
impl C10 {
    /// (position, length of the buffered data) of the buffer behind the lock
    fn cell(&self, e: &mut Engine, st: &mut State) -> Option<(Lin, Lin)> {
        let r = st.gv.get("c10:cell").cloned()?;
        let mut v = match &r {
            V::Ref(p) => e.mem.read(st, p),
            _ => return None,
        };
        if let V::Opq(..) = v {
            v = e.mem.expand(&v, 0);
        }
        let a = match &v {
            V::Adt(a) => a.clone(),
            _ => return None,
        };
        let tys = e.mem.field_tys(a.ty, a.var)?;
        let (mut pos, mut len) = (None, None);
        for (f, t) in a.f.iter().zip(tys) {
            if e.prog.int_range(t).is_some() {
                pos = Some(e.int_arg(st, f));
            } else if e.prog.adt_path(t).starts_with("bytes::") || e.prog.adt_path(t).starts_with("std::vec::Vec") {
                let sl = e.sl(st, f);
                len = Some(sl.len.clone());
            }
        }
        Some((pos?, len?))
    }
}
impl Mon for C10 {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        let s = st.g("c10");
        match (ev.what, ev.s.as_str()) {
            ("locked", k) if k.contains("File") => {
                st.set_g("c10", 1);
                st.set_gv("c10:cell", ev.v[0].clone());
            }
            ("unlock", k) if k.starts_with("lock:") && k.contains("File") => {
                st.set_g("c10", 0);
                st.del_gv("c10:cell");
            }
            ("ok", "seek") if s >= 1 => st.set_g("c10", 2),
            ("err", "seek") if s >= 1 => st.set_g("c10", 1),
            ("io", "read") if s >= 1 => {
                lcheck(e, "C10", "read is preceded by a seek under the same lock", s >= 2, || "pack data is read before the cursor was positioned in this hold of the lock".into());
                if s == 2 {
                    // no function boundary between the seek and the read
                    let c = self.cell(e, st);
                    let ok = c.map_or(false, |(p, l)| st.implies(&F::le(&l, &p)) || st.implies(&F::eq(&p, &Lin::k(0))));
                    lcheck(e, "C10", "no buffered bytes survive a seek", ok, || "bytes buffered at an earlier position may be used after the seek".into());
                }
                if s >= 2 {
                    st.set_g("c10", 4);
                }
            }
            ("wrap", p) if s >= 1 && p.contains("Decoder") => {
                let ok = s == 3 || (s >= 2 && self.cell(e, st).map_or(false, |(p, l)| st.implies(&F::eq(&l, &p))));
                lcheck(e, "C10", "decompression starts at the position sought to", ok, || "the decompressor reads from the cursor although data after the wanted position may already have been buffered".into());
            }
            _ => {}
        }
    }
    fn ret(&mut self, e: &mut Engine, st: &mut State, f: FnId, _v: &V) {
        if st.g("c10") == 2 && e.prog.fns[f].local {
            let c = self.cell(e, st);
            let ok = c.map_or(false, |(p, l)| st.implies(&F::eq(&l, &p)));
            let path = e.prog.fns[f].path.clone();
            e.oblige(format!("C10:{}:no buffered bytes survive a seek", path), ok, "", "bytes buffered at an earlier position may be used after the seek".into());
            st.set_g("c10", 3);
        }
    }
}

// ---------------------------------------------------------------- C18
pub struct C18;
impl C18 {
    fn is_idx(&self, st: &State, path: T) -> (bool, bool) {
        // (known to have the extension, known not to)
        let has = F::atom(ranged(app("has_extension", vec![path]), (0, 1)));
        let (p, q) = (app("extension", vec![path]), lit(b"idx"));
        let (p, q) = if p <= q { (p, q) } else { (q, p) };
        let eq = F::atom(ranged(app("eqs", vec![p, q]), (0, 1)));
        let yes = st.implies(&has) && st.implies(&eq);
        let no = st.implies(&F::and(&has, &eq).not());
        (yes, no)
    }
    fn settle(&self, e: &mut Engine, st: &mut State) {
        if st.g("c18e") == 1 {
            if let Some(v) = st.gv.get("c18e").cloned() {
                if let V::Opq(t, _) = v {
                    let p = app("entry_path", vec![t]);
                    if self.is_idx(st, p).1 {
                        st.set_g("c18e", 0);
                        st.del_gv("c18e");
                    }
                }
            }
        }
        let _ = e;
    }
}
fn packs_map(k: &str) -> bool {
    k.starts_with("map:") && !k.contains("ObjectHeader")
}
impl Mon for C18 {
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        match (ev.what, ev.s.as_str()) {
            ("locked", k) if k.contains("Instant") => {
                let v = match &ev.v[0] {
                    V::Ref(p) => e.mem.read(st, p),
                    _ => V::Undef,
                };
                st.set_gv("c18:cell", ev.v[0].clone());
                st.set_gv("c18:old", v);
                for k in ["c18", "c18e"] {
                    st.set_g(k, 0);
                }
            }
            ("ok", "read_dir") => st.set_g("c18", 1),
            ("err", "dir_next") => st.set_g("c18", -1),
            ("dir_entry", _) => {
                self.settle(e, st);
                lcheck(e, "C18", "every index file found is handled", st.g("c18e") == 0, || "an entry of the pack directory with the extension idx may be passed over".into());
                st.set_g("c18e", 1);
                if let V::Opq(t, ty) = ev.v[0] {
                    st.set_gv("c18e", V::Opq(t, ty));
                }
            }
            ("map_hit" | "map_has", k) | ("map_insert", k) if packs_map(k) && !st.gv.contains_key("c18:cell") => {
                let _ = k;
            }
            ("map_hit" | "map_has", k) | ("map_insert", k) if packs_map(k) => {
                let p = e.content(st, &ev.v[1]);
                let cur = match st.gv.get("c18e") {
                    Some(V::Opq(t, _)) => Some(app("entry_path", vec![*t])),
                    _ => None,
                };
                lcheck(e, "C18", "packs are known by the path of their index", cur == Some(p), || format!("the key of the pack map is {}", show(p)));
                if ev.what == "map_insert" {
                    let yes = self.is_idx(st, p).0;
                    lcheck(e, "C18", "only files with the extension idx are indexes", yes, || format!("{} is treated as an index", show(p)));
                    lcheck(e, "C18", "the index opened is the file found", st.g("c18:idx") == 1, || "the index file opened is not the directory entry".into());
                    lcheck(e, "C18", "the pack has the name of its index with the extension pack", st.g("c18:pack") == 1, || "the pack file opened is not the one named like the index".into());
                    st.set_g("c18:idx", 0);
                    st.set_g("c18:pack", 0);
                }
                if cur == Some(p) {
                    st.set_g("c18e", 0);
                }
            }
            ("ok", "open:read") | ("ok", "read") if matches!(st.gv.get("c18e"), Some(V::Opq(..))) && ev.v.len() >= 2 => {
                if ev.s == "read" && !matches!(ev.v[1], V::Slice(_) | V::Seq(_) | V::Ref(_)) {
                    return;
                }
                let p = match st.gv.get("c18e") {
                    Some(V::Opq(t, _)) => app("entry_path", vec![*t]),
                    _ => return,
                };
                let t = e.content(st, &ev.v[1]);
                if t == p {
                    st.set_g("c18:idx", 1);
                }
                if t == app("with_extension", vec![p, lit(b"pack")]) {
                    st.set_g("c18:pack", 1);
                }
            }
            ("dir_end", _) => {
                self.settle(e, st);
                lcheck(e, "C18", "every index file found is handled", st.g("c18e") == 0, || "an entry of the pack directory with the extension idx may be passed over".into());
                if st.g("c18") == 1 {
                    st.set_g("c18", 2);
                }
            }
            ("map_remove", k) if packs_map(k) => {
                lcheck(e, "C18", "a known pack stays known", false, || "a pack is removed from the known packs".into());
            }
            ("unlock", k) if k.starts_with("lock:") && k.contains("Instant") => {
                if let (Some(V::Ref(p)), Some(old)) = (st.gv.get("c18:cell").cloned(), st.gv.get("c18:old").cloned()) {
                    let now = e.mem.read(st, &p);
                    if now != old && !matches!(&now, V::Adt(a) if a.var == 0) {
                        let same = match (&now, &old) {
                            (V::Adt(a), V::Opq(..)) => a.f.iter().all(|x| match x { V::Opq(t, _) => deep(*t).iter().any(|y| matches!(&old, V::Opq(o, _) if deep(*o).contains(y))), _ => false }),
                            _ => false,
                        };
                        let g = st.g("c18");
                        lcheck(e, "C18", "a scan is recorded only when it is complete", same || g == 2, || "the scan is recorded as done although the directory was not read to its end".into());
                    }
                }
                st.del_gv("c18:cell");
                st.del_gv("c18:old");
                st.del_gv("c18e");
                for k in ["c18", "c18e", "c18:idx", "c18:pack"] {
                    st.set_g(k, 0);
                }
            }
            _ => {}
        }
    }
    fn normalise(&mut self, e: &mut Engine, st: &mut State) {
        self.settle(e, st);
    }
}
// ---------------------------------------------------------------- C17
/// The cache of decoded pack entries: what is inserted, and for which offset.
pub struct C17;
pub fn cache_map(k: &str) -> bool {
    k.starts_with("map:") && k.contains("ObjectHeader")
}
fn int(v: &V) -> Option<Lin> {
    match v {
        V::Int(l) => Some(l.clone()),
        V::Adt(a) if a.f.len() == 1 => int(&a.f[0]),
        _ => None,
    }
}
pub fn same(st: &State, a: &Lin, b: &Lin) -> bool {
    a == b || st.fx.norm(a) == st.fx.norm(b) || st.implies(&F::eq(a, b))
}
/// The integer fields of a value, with their places.
fn ints(v: &V, at: i64, out: &mut Vec<(i64, Lin)>) {
    match v {
        V::Int(l) => out.push((at, l.clone())),
        V::Adt(a) => {
            for (i, x) in a.f.iter().enumerate() {
                ints(x, at * 16 + i as i64 + 1, out);
            }
        }
        _ => {}
    }
}
impl Mon for C17 {
    fn ret(&mut self, e: &mut Engine, st: &mut State, f: FnId, v: &V) {
        crate::comp3::kept_ret(e, st, f, v);
    }
    fn ev(&mut self, e: &mut Engine, st: &mut State, ev: &Ev) {
        match (ev.what, ev.s.as_str()) {
            ("map_miss", k) if cache_map(k) => {
                st.set_gv("c17:key", ev.v[1].clone());
                st.set_g("c17:seeks", 0);
            }
            ("ok", "seek") => {
                let at = match ev.v.get(2) {
                    Some(V::Adt(a)) if a.var == 0 => int(&a.f[0]),
                    _ => None,
                };
                if let (0, Some(k)) = (st.g("c17:seeks"), st.gv.get("c17:key").and_then(int)) {
                    let ok = at.as_ref().map_or(false, |a| same(st, a, &k));
                    lcheck(e, "C17", "the entry decoded is the one at the offset looked up", ok, || format!("the entry at {} is decoded for offset {}", at.as_ref().map_or("?".into(), showl), showl(&k)));
                }
                st.set_g("c17:seeks", 1);
                match at {
                    Some(a) => st.set_gv("c17:at", V::Int(a)),
                    None => st.del_gv("c17:at"),
                }
            }
            ("push", _) => {
                let k = match st.gv.get("c17:key").and_then(int) {
                    Some(k) => k,
                    None => return,
                };
                let mut f = vec![];
                ints(ev.v.last().unwrap(), 0, &mut f);
                if f.len() < 2 {
                    return;
                }
                let i = f.iter().find(|x| same(st, &x.1, &k)).map(|x| x.0);
                // the other place that is relative to the same offset: where the data starts
                let j = f.iter().find(|x| Some(x.0) != i && !same(st, &x.1, &k) && k.m.iter().all(|y| x.1.m.iter().any(|z| z == y))).map(|x| x.0);
                let ok = i.is_some() && j.is_some();
                lcheck(e, "C17", "a delta is kept with its own offset", ok, || format!("no field of the chain entry is the offset {} it was found at", showl(&k)));
                st.set_g("c17:i", i.unwrap_or(-1));
                st.set_g("c17:j", j.unwrap_or(-1));
            }
            ("item", _) => st.set_gv("c17:item", ev.v[0].clone()),
            ("map_insert", k) if cache_map(k) => {
                if let Some(v) = ev.v.get(2) {
                    crate::comp3::kept_insert(e, st, "C17", &v.clone());
                }
                let key = int(&ev.v[1]);
                let at = st.gv.get("c17:at").and_then(int);
                let (key, at) = match (key, at) {
                    (Some(k), Some(a)) => (k, a),
                    _ => {
                        lcheck(e, "C17", "remembered under the offset of its own entry", false, || "an entry is remembered that was not read at a known offset".into());
                        return;
                    }
                };
                let own = st.gv.get("c17:key").and_then(int).map_or(false, |k| same(st, &k, &key) && k.m.iter().all(|y| at.m.iter().any(|z| z == y)));
                let mut f = vec![];
                if let Some(v) = st.gv.get("c17:item") {
                    ints(v, 0, &mut f);
                }
                let (i, j) = (st.g("c17:i"), st.g("c17:j"));
                let fi = f.iter().find(|x| x.0 == i).map_or(false, |x| same(st, &x.1, &key));
                let fj = f.iter().find(|x| x.0 == j).map_or(false, |x| same(st, &x.1, &at));
                lcheck(e, "C17", "remembered under the offset of its own entry", own || (fi && fj), || format!("data read at {} is remembered under {}", showl(&at), showl(&key)));
            }
            ("unlock", k) if k.starts_with("lock:") && k.contains("Buffer") => {
                for k in ["c17:key", "c17:at", "k:bytes", "k:len", "k:hdr"] {
                    st.del_gv(k);
                }
                st.set_g("c17:seeks", 0);
            }
            _ => {}
        }
    }
}
pub fn rc<T>(x: T) -> Rc<T> {
    Rc::new(x)
}
