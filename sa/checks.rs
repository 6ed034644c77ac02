// One monitor or contract per property, and the driver that runs it over the analysed crate.
use crate::exec::*;
use crate::prog::*;
use crate::term::*;
use crate::val::*;

pub fn show_v(v: &V) -> String {
    match v {
        V::Undef => "undef".into(),
        V::Int(l) => showl(l),
        V::Bool(f) => showf(f),
        V::Opq(t, _) => show(*t),
        V::Adt(a) => format!("adt{}#{}({})", a.ty, a.var, a.f.iter().map(show_v).collect::<Vec<_>>().join(",")),
        V::Ref(p) => format!("&{:?}", p.root).chars().take(60).collect(),
        V::Slice(s) => format!("sl[{};{}+{}]", show(s.seq.c), showl(&s.off), showl(&s.len)),
        V::Seq(s) => format!("seq[{};{}]", show(s.c), showl(&s.len)),
        V::Fnv(_) => "fn".into(),
    }
}
pub struct TraceMon;
impl Mon for TraceMon {
    fn ev(&mut self, e: &mut Engine, _st: &mut State, ev: &Ev) {
        if matches!(ev.what, "alloc" | "slice" | "eq" | "drop" | "prefix_test" | "extend") || e.dry > 0 {
            return;
        }
        let vs: Vec<String> = ev.v.iter().map(|v| show_v(v).chars().take(160).collect()).collect();
        println!("EV {} {} {} @{}", ev.what, ev.s, vs.join(" ; "), e.here());
    }
}

// ---------------------------------------------------------------- reports
use crate::mons;
use std::collections::BTreeMap;
use std::rc::Rc;

pub struct Report {
    pub obl: BTreeMap<String, Obl>,
    pub roots: Vec<String>,
    pub functions: usize,
    pub calls: u64,
    pub unknown: BTreeMap<String, usize>,
    pub exhausted: bool,
    pub notes: Vec<String>,
    pub rule: String,
    /// obligations whose key starts with one of these must exist
    pub floors: Vec<String>,
    pub engine: bool,
}
impl Report {
    pub fn new(rule: &str) -> Report {
        Report { obl: BTreeMap::new(), roots: vec![], functions: 0, calls: 0, unknown: BTreeMap::new(), exhausted: false, notes: vec![], rule: rule.into(), floors: vec![], engine: true }
    }
    pub fn add(&mut self, key: &str, ok: bool, at: &str, why: &str) {
        let o = self.obl.entry(key.to_string()).or_insert(Obl { ok: true, n: 0, what: String::new(), at: at.to_string(), why: String::new() });
        o.n += 1;
        if !ok && o.ok {
            o.ok = false;
            o.at = at.to_string();
            o.why = why.to_string();
        }
    }
    pub fn take(&mut self, e: &Engine, prefix: &str) {
        for (k, o) in &e.obl {
            if k.starts_with(prefix) {
                let p = o.why.clone();
                self.add(k, o.ok, &o.at.clone(), &p);
                let x = self.obl.get_mut(k).unwrap();
                x.n += o.n - 1;
            }
        }
        self.functions = e.analysed.len();
        self.calls = e.steps;
        for (k, n) in &e.unknown {
            *self.unknown.entry(k.clone()).or_insert(0) += n;
        }
        self.exhausted |= e.exhausted;
        self.notes.extend(e.notes.iter().cloned());
    }
}
pub fn is_api(r: &Root) -> bool {
    r.public && !r.generic && !r.path.contains("fmt::") && !r.path.contains("std::") && !r.path.contains("zerocopy::")
}
/// How a value of the library is printed.
pub fn is_fmt(r: &Root) -> bool {
    !r.generic && r.path.contains("fmt::")
}
pub fn is_db(path: &str) -> bool {
    path.contains("Database") || path.contains("repository::") || path.ends_with("::peel") || path.starts_with("reference::Reference::from_")
}
pub fn engine(prog: &Rc<Prog>) -> Engine {
    let mut e = Engine::new(prog.clone());
    e.max_steps = 60_000_000;
    e
}
/// Runs the chosen public functions on arbitrary arguments and arbitrary shared state.
pub fn run_arb(e: &mut Engine, r: &mut Report, pick: &dyn Fn(&Root) -> bool, with_arg: bool) {
    e.arb = true;
    let prog = e.prog.clone();
    for root in &prog.roots {
        if !(is_api(root) || e.show && is_fmt(root)) || !pick(root) {
            continue;
        }
        let body = match &prog.fns[root.inst].body {
            Some(b) => b,
            None => continue,
        };
        e.root = root.path.clone();
        e.root_ty = body.locals[0];
        r.roots.push(root.path.clone());
        let t0 = std::time::Instant::now();
        let outs = e.run_root(root.inst, &mut |e, st, tys| {
            let vs: Vec<V> = tys
                .iter()
                .map(|t| {
                    let s = e.prog.ts(*t).to_string();
                    let h = if s.contains("Database") || s.contains("Repository") { "db" } else { "arg" };
                    e.mem.fresh(h, *t)
                })
                .collect();
            if with_arg {
                if let (Some(v), Some(t)) = (vs.get(1), tys.get(1)) {
                    // the bytes of the second argument: what is written, or the id that is read
                    let w = if e.prog.adt_path(*t) == "object::Id" {
                        match e.mem.expand(v, 0) {
                            V::Adt(a) => a.f[0].clone(),
                            x => x,
                        }
                    } else {
                        v.clone()
                    };
                    st.set_gv("w:arg", w);
                }
            }
            vs
        });
        if std::env::var("SA_T").is_ok() {
            println!("T {:?} {}", t0.elapsed(), root.path);
        }
        for (mut s, v) in outs {
            e.emit(&mut s, "root_return", vec![v], &root.path);
        }
    }
}
pub static MIR: std::sync::OnceLock<String> = std::sync::OnceLock::new();
pub const ALL: &[&str] = &["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"];
pub fn check(prop: &str, prog: &Rc<Prog>, tier: &str) -> Option<Report> {
    let mut r;
    let _ = tier;
    // the same with the roots shared out to several analysers
    let shared = |r: &mut Report, mk: fn() -> Box<dyn Mon>, pick: fn(&Root) -> bool| {
        let n = 8;
        let mir = MIR.get().cloned().unwrap_or_default();
        let key = format!("{}:", prop);
        let parts: Vec<(Report, Vec<usize>)> = std::thread::scope(|sc| {
            let hs: Vec<_> = (0..n)
                .map(|k| {
                    let (mir, key) = (mir.clone(), key.clone());
                    std::thread::Builder::new()
                        .stack_size(4 << 30)
                        .spawn_scoped(sc, move || {
                            let prog = Rc::new(Prog::load(&std::fs::read_to_string(mir).unwrap()));
                            let mut e = engine(&prog);
                            e.mon = Some(mk());
                            let mut q = Report::new("");
                            let mine: Vec<String> = prog.roots.iter().filter(|x| is_api(x) && pick(x)).enumerate().filter(|(i, _)| i % n == k).map(|x| x.1.path.clone()).collect();
                            run_arb(&mut e, &mut q, &|x| pick(x) && mine.contains(&x.path), true);
                            if e.again {
                                e.obl.clear();
                                e.cache = Default::default();
                                q.roots.clear();
                                run_arb(&mut e, &mut q, &|x| pick(x) && mine.contains(&x.path), true);
                            }
                            q.take(&e, &key);
                            (q, e.analysed.iter().cloned().collect::<Vec<_>>())
                        })
                        .unwrap()
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut fns = std::collections::BTreeSet::new();
        for (q, f) in parts {
            fns.extend(f);
            for (k, o) in q.obl {
                r.add(&k, o.ok, &o.at, &o.why);
                r.obl.get_mut(&k).unwrap().n += o.n - 1;
            }
            r.calls += q.calls;
            r.roots.extend(q.roots);
            for (k, n) in q.unknown {
                *r.unknown.entry(k).or_insert(0) += n;
            }
            r.exhausted |= q.exhausted;
            r.notes.extend(q.notes);
        }
        r.roots.sort();
        r.functions = fns.len();
    };
    let monitored = |r: &mut Report, m: Box<dyn Mon>, pick: &dyn Fn(&Root) -> bool| {
        let mut e = engine(prog);
        e.mon = Some(m);
        run_arb(&mut e, r, pick, true);
        r.take(&e, &format!("{}:", prop));
    };
    match prop {
        "C01" => {
            r = Report::new("no panic is reachable: every assertion, index, slice, unwrap and arithmetic check of the MIR and of the library calls is discharged, with invariants of types shown where they are built");
            r.floors = vec!["panic:".into(), "C01:".into()];
            let (seen, parsers) = crate::comp7::objects(prog, &mut r);
            let cuts = crate::comp7::index(prog, &mut r);
            let mut e = engine(prog);
            e.cuts = cuts.into_iter().chain(parsers).collect();
            e.made = crate::comp7::watched(prog);
            e.show = true;
            e.trust = crate::comp7::TRUST.to_vec();
            e.mon = Some(Box::new(crate::comp7::C01));
            run_arb(&mut e, &mut r, &|r| !seen.contains(&r.path) && !r.path.ends_with("object::Id::from_bytes") && std::env::var("SA_ROOT").map_or(true, |o| r.path.contains(&o)), false);
            r.take(&e, "panic:");
            r.take(&e, "C01:");
        }
        "C02" => {
            r = Report::new("every request for memory is bounded by a constant and the lengths of the data held when it is made");
            r.floors = vec!["C02:*asked for".into()];
            shared(&mut r, crate::comp6::room, |_| true);
        }
        "C03" => {
            r = Report::new("ranking of every way back to the head of a loop, and of every recursive call");
            r.floors = vec!["C03:".into()];
            shared(&mut r, crate::comp6::mons, |r| std::env::var("SA_ROOT").map_or(true, |o| r.path.contains(&o)));
        }
        "C04" => {
            r = Report::new("typestate: a failed fallible operation stays pending on its path until an error is returned or it is known to be an absorbable kind");
            r.floors = vec!["C04:".into()];
            shared(&mut r, || Box::new(mons::C04), |r| is_db(&r.path));
        }
        "C05" => {
            r = Report::new("typestate over the steps packs, loose file absent, directory listed, list complete, packs again");
            r.floors = vec!["C05:object::database::ObjectDatabase::parse_object:not found".into(), "C05:object::database::ObjectDatabase::read_object:not found".into()];
            monitored(&mut r, Box::new(mons::C05), &|r| r.path.ends_with("ObjectDatabase::parse_object") || r.path.ends_with("ObjectDatabase::read_object"));
            // a rescan has to find what is there
            let mut d = Report::new("");
            let mut e = engine(prog);
            e.mon = Some(Box::new(mons::C18));
            run_arb(&mut e, &mut d, &|r| r.path.ends_with("ObjectDatabase::parse_object"), true);
            d.take(&e, "C18:");
            for (k, o) in d.obl {
                if ["every index file found", "stays known"].iter().any(|x| k.contains(x)) {
                    r.obl.insert(k.replacen("C18:", "C05:", 1), o);
                }
            }
        }
        "C06" => {
            r = Report::new("typestate of the temporary file: created, written, finished, synced, renamed");
            r.floors = vec!["C06:object::database::ObjectDatabase::write_object:success".into()];
            monitored(&mut r, Box::new(mons::Writes { p6: true, p7: false, p25: false }), &|r| r.path.ends_with("::write_object"));
        }
        "C07" => {
            r = Report::new("effect analysis: file-system effects reachable from each public operation and the paths they act on");
            r.floors = vec!["C07:".into()];
            shared(&mut r, || Box::new(mons::Writes { p6: false, p7: true, p25: false }), |_| true);
        }
        "C25" => {
            r = Report::new("provenance of the object path, the stored bytes and the returned id");
            r.floors = vec!["C25:object::database::ObjectDatabase::write_object:returned".into(), "C25:".into()];
            monitored(&mut r, Box::new(mons::Writes { p6: false, p7: false, p25: true }), &|r| r.path.ends_with("Database::write_object") || r.path.ends_with("Database::parse_object") || r.path.ends_with("Database::read_object"));
        }
        "C08" => {
            r = Report::new("taint analysis: every path handed to the file system is a field of the database handle joined with names shown to consist of normal components");
            r.floors = vec!["C08:".into()];
            shared(&mut r, || Box::new(mons::C08), |r| is_db(&r.path));
        }
        "C09" => {
            r = Report::new("lockset analysis and acyclicity of the lock-order graph");
            r.floors = vec!["C09:order:".into()];
            monitored(&mut r, Box::new(mons::C09::default()), &|r| is_db(&r.path));
        }
        "C10" => {
            r = Report::new("typestate of the shared file cursor: locked, positioned, clean, read");
            r.floors = vec!["C10:".into()];
            monitored(&mut r, Box::new(mons::C10), &|r| r.path.contains("ObjectDatabase"));
        }
        "C17" => {
            r = Report::new("typestate of the pack cache: looked up, positioned, decoded, remembered, with the offset the data was read at");
            r.floors = vec!["C17:".into(), "C17:*a cache of its own".into(), "C17:*has the kind of what was decoded".into(), "C17:*is what was decoded".into()];
            monitored(&mut r, Box::new(mons::C17), &|r| r.path.contains("ObjectDatabase"));
            crate::comp2::own_cache(prog, &mut r);
        }
        "C18" => {
            r = Report::new("typestate of a pack directory scan");
            r.floors = vec!["C18:".into()];
            monitored(&mut r, Box::new(mons::C18), &|r| r.path.contains("ObjectDatabase"));
        }
        "C22" => {
            r = Report::new("contract of the index lookup: every outcome related to the table positions it was read from");
            r.floors = ["not found means", "ambiguous means", "the id returned matches", "the offset is stored", "the range searched", "the table is searched by"].iter().map(|x| format!("C22:*:{}", x)).collect();
            crate::comp::c22(prog, &mut r);
        }
        "C24" => {
            r = Report::new("contract of each decoder: the value of every encoding, with all loops unrolled to their end");
            r.floors = ["*the length is", "*the type is", "*the offset is", "*the first length", "*the second length", "*the offset of", "*the length of a copy", "*the length of an ins"].iter().map(|x| format!("C24:{}", x)).collect();
            crate::comp::c24(prog, &mut r);
        }
        "C12" => {
            r = Report::new("contract of each place that gives an object its kind: the word, the type bits, the base of a delta, the decoder chosen");
            r.floors = ["header:", "body:", "tag:", "*the word the header starts", "*decoded as its kind", "*kind of its header", "*type line", "*type is that of bits", "*what is remembered has the kind"].iter().map(|x| format!("C12:{}", x)).collect();
            crate::comp3::c12(prog, &mut r);
            let (f, n) = (r.functions, r.exhausted);
            monitored(&mut r, Box::new(crate::comp3::Kept), &|r| r.path.ends_with("ObjectDatabase::parse_object"));
            r.functions += f;
            r.exhausted |= n;
        }
        "C13" => {
            r = Report::new("contract of reading a stream to its end, and the length it is read with");
            r.floors = ["*as many bytes as expected", "*the stream has ended", "*every byte of the stream is there", "*has the length of its header", "*decimal number"].iter().map(|x| format!("C13:{}", x)).collect();
            crate::comp3::c13(prog, &mut r);
        }
        "C16" => {
            r = Report::new("contract of each accessor on every object its parser returns: the place in the object its result comes from");
            r.floors = ["`tree` line", "`object` line", "`tag` line", "`encoding` line", "`author` line", "`committer` line", "`tagger` line", "follows a blank line", "extends to the end", "each id is that of a `parent`", "what is kept of a parent", "octal number", "first NUL", "entries fill", "the name is that of the entry", "the mode is that", "the id is that of the entry"].iter().map(|x| format!("C16:*{}", x)).collect();
            crate::comp4::c16(prog, &mut r);
        }
        "C23" => {
            r = Report::new("the constant pattern of signatures compared with git's shape as a normalised syntax tree, and the group each accessor returns");
            r.floors = ["pattern:", "*`name` is one group", "*`email` is one", "*`timestamp` is one", "*`timezone` is one", "*Commit::author:the line was", "*Commit::committer:the line was", "*Tag::tagger:the line was"].iter().map(|x| format!("C23:{}", x)).collect();
            crate::comp4::c23(prog, &mut r);
        }
        "C19" => {
            r = Report::new("typestate of listing: each directory entry is descended into or listed, each list handed on item by item");
            r.floors = ["head_reference_names:every directory", "tag_reference_names:every directory", "remote_reference_names:every directory", "reference_names:every directory", "each entry of a directory", "names are relative", "only real directories", "what is listed is not"].iter().map(|x| format!("C19:*{}", x)).collect();
            crate::comp5::c19(prog, &mut r);
        }
        "C20" => {
            r = Report::new("contract of reading a reference file (which line, which part of it) and of peeling");
            r.floors = ["only empty lines", "extends to the end of the line", "first that is not skipped", "a symbolic reference has", "an id is all"].iter().map(|x| format!("C20:*{}", x)).collect();
            crate::comp5::c20(prog, &mut r);
        }
        "C21" => {
            r = Report::new("contract of each function that makes, compares or prints an id");
            r.floors = ["only hexa", "only the right number", "the bytes are those", "prints the digits", "writes exactly", "a prefix matches", "the order is", "short id of all", "only wrong text"].iter().map(|x| format!("C21:*{}", x)).collect();
            crate::comp4::c21(prog, &mut r);
        }
        "C14" => {
            r = Report::new("contract of opening a pack: what is known of index and pack whenever they are handed out together");
            r.floors = ["same number", "same checksum", "last 20 bytes", "the signature", "version 2 or 3", "told apart*", "fan-out table does not", "last entry", "long enough", "too long"].iter().filter(|x| !x.contains("told")).map(|x| format!("C14:*{}", x)).collect();
            crate::comp2::c14(prog, &mut r);
        }
        "C15" => {
            r = Report::new("typestate of delta application: one command, one append of the bytes it addresses; lengths as declared; order of the chain");
            r.floors = ["*the result has", "*the base has", "*a copy appends", "*an insertion appends", "*the end of"].iter().map(|x| format!("C15:{}", x)).collect();
            crate::comp::c15(prog, &mut r);
            // what a command addresses, and the lengths a delta declares, as the decoders have them
            let mut d = Report::new("");
            crate::comp::c24(prog, &mut d);
            for (k, o) in d.obl {
                if ["of a copy", "of an insertion", "the reserved command", "the command has", "length is that of the base", "length is that of the result"].iter().any(|x| k.contains(x)) {
                    r.obl.insert(k.replacen("C24:", "C15:", 1), o);
                }
            }
        }
        "C11" => {
            r = Report::new("auto traits of the public types as computed by the compiler, and absence of unsafe code in the type-checked crate");
            r.engine = false;
            for p in ["repository::Repository", "object::database::ObjectDatabase", "reference::database::ReferenceDatabase", "object::Object", "object::ObjectData", "object::commit::Commit", "object::tree::Tree", "object::tag::Tag", "object::blob::Blob", "object::Id", "object::ShortId"] {
                r.floors.push(format!("C11:{}:Send", p));
            }
            for a in &prog.auto {
                if !a.public || a.path.contains("Error") {
                    continue;
                }
                r.add(&format!("C11:{}:Send", a.path), a.send, &a.span, &format!("{} is not Send", a.path));
                r.add(&format!("C11:{}:Sync", a.path), a.sync, &a.span, &format!("{} is not Sync", a.path));
            }
            for (k, at) in &prog.unsafe_sites {
                let file = at.split(':').next().unwrap_or("");
                r.add(&format!("C11:{}:{}", file, k), false, at, &format!("{} at {}", k, at));
            }
            for x in &prog.roots {
                if x.unsafe_ {
                    r.add(&format!("C11:{}:unsafe fn", x.path), false, "", "unsafe function");
                }
                r.functions += 1;
            }
        }
        _ => return None,
    }
    Some(r)
}
