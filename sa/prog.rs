// The analysed program: types and monomorphised MIR, as dumped by the driver.
use crate::json::J;
use std::collections::{BTreeMap, BTreeSet};
use crate::fx::{HashMap};

pub type Ty = u32;
pub type FnId = usize;

#[derive(Clone, Debug, Default)]
pub struct FieldI {
    pub name: String,
    pub ty: Ty,
    pub public: bool,
}
#[derive(Clone, Debug, Default)]
pub struct VariantI {
    pub name: String,
    pub discr: i128,
    pub fields: Vec<FieldI>,
}
#[derive(Clone, Debug)]
pub enum TK {
    Bool,
    Char,
    Int { bits: u32, signed: bool },
    Float,
    Str,
    Never,
    Slice(Ty),
    Array(Ty, Option<i128>),
    Ref(Ty, bool),
    Ptr(Ty, bool),
    Tuple(Vec<Ty>),
    Adt { path: String, local: bool, is_enum: bool, args: Vec<Ty>, variants: Option<Vec<VariantI>> },
    Closure { inst: FnId, upvars: Vec<Ty>, kind: String },
    FnDef(Callee),
    FnPtr,
    Dyn(String),
    Param,
    Other,
}
#[derive(Clone, Debug)]
pub struct TyI {
    pub s: String,
    pub k: TK,
    pub size: Option<i128>,
    pub align: Option<i128>,
    pub offsets: Vec<i128>,
}
#[derive(Clone, Debug, Default)]
pub struct Callee {
    pub decl: String,
    pub inst: Option<FnId>,
    pub ctor: bool,
    pub virt: bool,
    pub intrinsic: bool,
    pub unresolved: bool,
    pub targs: Vec<Ty>,
}
#[derive(Clone, Debug, PartialEq)]
pub enum PE {
    Deref,
    Field(u32, Ty),
    Index(u32),
    CIdx(i128, i128, bool),
    Sub(i128, i128, bool),
    Down(u32),
    Unk,
}
#[derive(Clone, Debug, PartialEq)]
pub struct Place {
    pub local: u32,
    pub proj: Vec<PE>,
}
#[derive(Clone, Debug)]
pub enum Op {
    Copy(Place),
    Move(Place),
    Const(J, Ty),
    RtCheck,
}
#[derive(Clone, Debug)]
pub enum Rv {
    Use(Op),
    Repeat(Op, Option<i128>),
    Ref(bool, Place),
    RawPtr(Place),
    Cast(String, Op, Ty, Ty),
    Bin(String, Op, Op, Ty),
    Un(String, Op, Ty),
    Discr(Place, Ty),
    Agg(String, Ty, u32, Vec<Op>),
    Other(String),
}
#[derive(Clone, Debug)]
pub enum St {
    Assign(Place, Rv, String),
    SetDiscr(Place, u32),
    Dead(u32),
    Live(u32),
}
#[derive(Clone, Debug)]
pub enum Tm {
    Goto(usize),
    Switch(Op, Ty, Vec<(i128, usize)>, usize),
    Return,
    Unreachable,
    Unwind,
    Drop(Place, usize, Ty),
    Assert(Op, bool, String, usize),
    Call { callee: Callee, value: Option<Op>, args: Vec<Op>, tys: Vec<Ty>, dest: Place, rty: Ty, to: Option<usize>, span: String },
    Other(String),
}
#[derive(Clone, Debug)]
pub struct Block {
    pub st: Vec<St>,
    pub t: Tm,
    pub sp: String,
    pub cleanup: bool,
}
#[derive(Clone, Debug)]
pub struct Body {
    pub locals: Vec<Ty>,
    pub argc: usize,
    pub spread: Option<u32>,
    pub names: Vec<(String, Place)>,
    pub blocks: Vec<Block>,
    // loop header -> body block set
    pub loops: BTreeMap<usize, BTreeSet<usize>>,
    // position of a block in reverse postorder
    pub rpo: Vec<usize>,
}
#[derive(Clone, Debug)]
pub struct Fun {
    pub path: String,
    pub local: bool,
    pub kind: String,
    pub inst: String,
    pub shim: bool,
    pub span: String,
    pub targs: Vec<Ty>,
    pub trait_: Option<String>,
    pub self_ty: Option<Ty>,
    pub ctor: Option<(Ty, u32)>,
    pub body: Option<Body>,
}
#[derive(Clone, Debug)]
pub struct Root {
    pub inst: FnId,
    pub path: String,
    pub public: bool,
    pub generic: bool,
    pub unsafe_: bool,
    pub trait_: Option<String>,
    pub self_ty: Option<Ty>,
    pub self_public: bool,
}
pub struct AutoI {
    pub path: String,
    pub public: bool,
    pub send: bool,
    pub sync: bool,
    pub span: String,
}
pub struct Prog {
    pub auto: Vec<AutoI>,
    pub unsafe_sites: Vec<(String, String)>,
    /// kinds of I/O errors and their numbers
    pub errkinds: Option<std::rc::Rc<std::collections::BTreeMap<String, i128>>>,
    pub types: Vec<TyI>,
    pub fns: Vec<Fun>,
    pub roots: Vec<Root>,
    pub items: Vec<(String, String)>,
    pub adts: Vec<(String, Ty, bool)>,
    pub by_s: HashMap<String, Ty>,
}

fn callee(j: &J) -> Callee {
    Callee {
        decl: j.get("decl").s().to_string(),
        inst: if j.has("inst") { Some(j.get("inst").u()) } else { None },
        ctor: j.get("ctor").b(),
        virt: j.get("virtual").b(),
        intrinsic: j.get("intrinsic").b(),
        unresolved: j.get("unresolved").b(),
        targs: j.get("targs").arr().iter().map(|x| x.i() as Ty).collect(),
    }
}
fn place(j: &J) -> Place {
    let a = j.arr();
    let mut proj = vec![];
    for e in &a[1..] {
        proj.push(match e {
            J::Str(s) if s == "*" => PE::Deref,
            J::Arr(v) => match v[0].s() {
                "f" => PE::Field(v[1].i() as u32, v[2].i() as Ty),
                "i" => PE::Index(v[1].i() as u32),
                "c" => PE::CIdx(v[1].i(), v[2].i(), v[3].b()),
                "s" => PE::Sub(v[1].i(), v[2].i(), v[3].b()),
                "d" => PE::Down(v[1].i() as u32),
                _ => PE::Unk,
            },
            _ => PE::Unk,
        });
    }
    Place { local: a[0].i() as u32, proj }
}
fn op(j: &J) -> Op {
    match j.at(0).s() {
        "copy" => Op::Copy(place(j.at(1))),
        "move" => Op::Move(place(j.at(1))),
        "const" => Op::Const(j.at(1).clone(), j.at(1).get("ty").i() as Ty),
        _ => Op::RtCheck,
    }
}
fn rv(j: &J) -> Rv {
    match j.at(0).s() {
        "use" => Rv::Use(op(j.at(1))),
        "repeat" => Rv::Repeat(op(j.at(1)), if j.at(2).is_null() { None } else { Some(j.at(2).i()) }),
        "ref" => Rv::Ref(j.at(1).b(), place(j.at(2))),
        "rawptr" => Rv::RawPtr(place(j.at(1))),
        "cast" => Rv::Cast(j.at(1).s().to_string(), op(j.at(2)), j.at(3).i() as Ty, j.at(4).i() as Ty),
        "bin" => Rv::Bin(j.at(1).s().to_string(), op(j.at(2)), op(j.at(3)), j.at(4).i() as Ty),
        "un" => Rv::Un(j.at(1).s().to_string(), op(j.at(2)), j.at(3).i() as Ty),
        "discr" => Rv::Discr(place(j.at(1)), j.at(2).i() as Ty),
        "agg" => Rv::Agg(j.at(1).s().to_string(), j.at(2).i() as Ty, j.at(3).i() as u32, j.at(4).arr().iter().map(op).collect()),
        _ => Rv::Other(format!("{:?}", j)),
    }
}
fn body(j: &J) -> Body {
    let mut blocks = vec![];
    for b in j.get("blocks").arr() {
        let mut st = vec![];
        for x in b.get("st").arr() {
            match x.at(0).s() {
                "=" => st.push(St::Assign(place(x.at(1)), rv(x.at(2)), x.at(3).s().to_string())),
                "setdiscr" => st.push(St::SetDiscr(place(x.at(1)), x.at(2).i() as u32)),
                "dead" => st.push(St::Dead(x.at(1).i() as u32)),
                "live" => st.push(St::Live(x.at(1).i() as u32)),
                _ => {}
            }
        }
        let t = b.get("t");
        let tm = if t.has("call") {
            let c = t.get("call");
            Tm::Call {
                callee: callee(c),
                value: if c.has("value") { Some(op(c.get("value"))) } else { None },
                args: t.get("args").arr().iter().map(op).collect(),
                tys: t.get("tys").arr().iter().map(|x| x.i() as Ty).collect(),
                dest: place(t.get("dest")),
                rty: t.get("rty").i() as Ty,
                to: if t.get("to").is_null() { None } else { Some(t.get("to").u()) },
                span: t.get("span").s().to_string(),
            }
        } else {
            match t.at(0).s() {
                "goto" => Tm::Goto(t.at(1).u()),
                "switch" => Tm::Switch(
                    op(t.at(1)),
                    t.at(2).i() as Ty,
                    t.at(3).arr().iter().map(|x| (x.at(0).i(), x.at(1).u())).collect(),
                    t.at(4).u(),
                ),
                "return" => Tm::Return,
                "unreachable" => Tm::Unreachable,
                "unwind" => Tm::Unwind,
                "drop" => Tm::Drop(place(t.at(1)), t.at(2).u(), t.at(3).i() as Ty),
                "assert" => Tm::Assert(op(t.at(1)), t.at(2).b(), t.at(3).s().to_string(), t.at(4).u()),
                _ => Tm::Other(format!("{:?}", t)),
            }
        };
        blocks.push(Block { st, t: tm, sp: b.get("sp").s().to_string(), cleanup: b.get("cleanup").b() });
    }
    let mut body = Body {
        locals: j.get("locals").arr().iter().map(|x| x.i() as Ty).collect(),
        argc: j.get("argc").u(),
        spread: if j.get("spread").is_null() { None } else { Some(j.get("spread").i() as u32) },
        names: j.get("names").arr().iter().map(|x| (x.at(0).s().to_string(), place(x.at(1)))).collect(),
        blocks,
        loops: BTreeMap::new(),
        rpo: vec![],
    };
    body.loops = find_loops(&body);
    body.rpo = rpo(&body);
    body
}
pub fn succs(b: &Block) -> Vec<usize> {
    match &b.t {
        Tm::Goto(t) => vec![*t],
        Tm::Switch(_, _, v, o) => {
            let mut r: Vec<usize> = v.iter().map(|x| x.1).collect();
            r.push(*o);
            r
        }
        Tm::Drop(_, t, _) => vec![*t],
        Tm::Assert(_, _, _, t) => vec![*t],
        Tm::Call { to: Some(t), .. } => vec![*t],
        _ => vec![],
    }
}
fn rpo(b: &Body) -> Vec<usize> {
    let n = b.blocks.len();
    let mut pos = vec![n; n];
    let mut seen = vec![false; n];
    let mut post = vec![];
    let mut work: Vec<(usize, usize)> = vec![(0, 0)];
    if n > 0 {
        seen[0] = true;
    }
    while let Some((x, i)) = work.pop() {
        let ss = succs(&b.blocks[x]);
        if i < ss.len() {
            work.push((x, i + 1));
            if !seen[ss[i]] {
                seen[ss[i]] = true;
                work.push((ss[i], 0));
            }
        } else {
            post.push(x);
        }
    }
    for (i, x) in post.iter().rev().enumerate() {
        pos[*x] = i;
    }
    pos
}
fn find_loops(b: &Body) -> BTreeMap<usize, BTreeSet<usize>> {
    let n = b.blocks.len();
    let mut preds = vec![vec![]; n];
    for (i, bl) in b.blocks.iter().enumerate() {
        for s in succs(bl) {
            preds[s].push(i);
        }
    }
    // reachable + dominators (simple iterative)
    let mut reach = vec![false; n];
    let mut stack = vec![0];
    while let Some(x) = stack.pop() {
        if reach[x] {
            continue;
        }
        reach[x] = true;
        for s in succs(&b.blocks[x]) {
            stack.push(s);
        }
    }
    let all: BTreeSet<usize> = (0..n).filter(|i| reach[*i]).collect();
    let mut dom: Vec<BTreeSet<usize>> = vec![all.clone(); n];
    dom[0] = [0].into_iter().collect();
    let mut ch = true;
    while ch {
        ch = false;
        for i in 1..n {
            if !reach[i] {
                continue;
            }
            let mut d: Option<BTreeSet<usize>> = None;
            for p in &preds[i] {
                if !reach[*p] {
                    continue;
                }
                d = Some(match d {
                    None => dom[*p].clone(),
                    Some(x) => x.intersection(&dom[*p]).cloned().collect(),
                });
            }
            let mut d = d.unwrap_or_default();
            d.insert(i);
            if d != dom[i] {
                dom[i] = d;
                ch = true;
            }
        }
    }
    let mut loops: BTreeMap<usize, BTreeSet<usize>> = BTreeMap::new();
    for i in 0..n {
        if !reach[i] {
            continue;
        }
        for s in succs(&b.blocks[i]) {
            if dom[i].contains(&s) {
                let set = loops.entry(s).or_default();
                set.insert(s);
                let mut st = vec![i];
                while let Some(x) = st.pop() {
                    if set.insert(x) {
                        for p in &preds[x] {
                            if reach[*p] {
                                st.push(*p);
                            }
                        }
                    }
                }
            }
        }
    }
    loops
}

impl Prog {
    pub fn load(src: &str) -> Prog {
        let j = J::parse(src);
        let mut types: Vec<TyI> = vec![];
        let mut by_s = HashMap::default();
        for t in j.get("types").arr() {
            let tys = |k: &str| -> Vec<Ty> { t.get(k).arr().iter().map(|x| x.i() as Ty).collect() };
            let k = match t.get("k").s() {
                "bool" => TK::Bool,
                "char" => TK::Char,
                "int" => TK::Int { bits: t.get("bits").i() as u32, signed: t.get("signed").b() },
                "float" => TK::Float,
                "str" => TK::Str,
                "never" => TK::Never,
                "slice" => TK::Slice(t.get("elem").i() as Ty),
                "array" => TK::Array(t.get("elem").i() as Ty, if t.get("len").is_null() { None } else { Some(t.get("len").i()) }),
                "ref" => TK::Ref(t.get("elem").i() as Ty, t.get("mut").b()),
                "ptr" => TK::Ptr(t.get("elem").i() as Ty, t.get("mut").b()),
                "tuple" => TK::Tuple(tys("elems")),
                "adt" => TK::Adt {
                    path: t.get("path").s().to_string(),
                    local: t.get("local").b(),
                    is_enum: t.get("kind").s() == "enum",
                    args: tys("args"),
                    variants: if t.has("variants") {
                        Some(
                            t.get("variants")
                                .arr()
                                .iter()
                                .map(|v| VariantI {
                                    name: v.get("name").s().to_string(),
                                    discr: v.get("discr").i(),
                                    fields: v
                                        .get("fields")
                                        .arr()
                                        .iter()
                                        .map(|f| FieldI { name: f.get("name").s().to_string(), ty: f.get("ty").i() as Ty, public: f.get("pub").b() })
                                        .collect(),
                                })
                                .collect(),
                        )
                    } else {
                        None
                    },
                },
                "closure" => TK::Closure { inst: t.get("inst").u(), upvars: tys("upvars"), kind: t.get("ckind").s().to_string() },
                "fndef" => TK::FnDef(callee(t.get("callee"))),
                "fnptr" => TK::FnPtr,
                "dyn" => TK::Dyn(t.get("trait").s().to_string()),
                "param" | "alias" => TK::Param,
                _ => TK::Other,
            };
            by_s.insert(t.get("s").s().to_string(), types.len() as Ty);
            types.push(TyI {
                s: t.get("s").s().to_string(),
                k,
                size: if t.has("size") { Some(t.get("size").i()) } else { None },
                align: if t.has("align") { Some(t.get("align").i()) } else { None },
                offsets: t.get("offsets").arr().iter().map(|x| x.i()).collect(),
            });
        }
        // sizes of the built-in types
        for _ in 0..3 {
            for i in 0..types.len() {
                if types[i].size.is_some() {
                    continue;
                }
                let sa = match &types[i].k {
                    TK::Int { bits, .. } => Some((*bits as i128 / 8, *bits as i128 / 8)),
                    TK::Bool => Some((1, 1)),
                    TK::Char => Some((4, 4)),
                    TK::Tuple(v) if v.is_empty() => Some((0, 1)),
                    TK::Array(el, Some(n)) => {
                        let e: &TyI = &types[*el as usize];
                        match (e.size, e.align) {
                            (Some(s), Some(a)) => Some((s * n, a)),
                            _ => None,
                        }
                    }
                    _ => None,
                };
                if let Some((s, a)) = sa {
                    types[i].size = Some(s);
                    types[i].align = Some(a);
                }
            }
        }
        let mut fns = vec![];
        for f in j.get("fns").arr() {
            fns.push(Fun {
                path: f.get("path").s().to_string(),
                local: f.get("local").b(),
                kind: f.get("kind").s().to_string(),
                inst: f.get("inst").s().to_string(),
                shim: f.get("shim").b(),
                span: f.get("span").s().to_string(),
                targs: f.get("targs").arr().iter().map(|x| x.i() as Ty).collect(),
                trait_: if f.has("trait") { Some(f.get("trait").s().to_string()) } else { None },
                self_ty: if f.has("self_ty") { Some(f.get("self_ty").i() as Ty) } else { None },
                ctor: if f.has("ctor_variant") { Some((f.get("ctor_ty").i() as Ty, f.get("ctor_variant").i() as u32)) } else { None },
                body: if f.has("body") { Some(body(f.get("body"))) } else { None },
            });
        }
        let roots = j
            .get("roots")
            .arr()
            .iter()
            .map(|r| Root {
                inst: r.get("inst").u(),
                path: r.get("path").s().to_string(),
                public: r.get("public").b(),
                generic: r.get("generic").b(),
                unsafe_: r.get("unsafe").b(),
                trait_: if r.has("trait") { Some(r.get("trait").s().to_string()) } else { None },
                self_ty: if r.has("self_ty") { Some(r.get("self_ty").i() as Ty) } else { None },
                self_public: r.get("self_public").b(),
            })
            .collect();
        let items = j.get("items").arr().iter().map(|x| (x.get("path").s().to_string(), x.get("kind").s().to_string())).collect();
        let adts = j.get("adts").arr().iter().map(|x| (x.get("path").s().to_string(), x.get("ty").i() as Ty, x.get("public").b())).collect();
        let auto = j
            .get("adts")
            .arr()
            .iter()
            .map(|x| AutoI { path: x.get("path").s().to_string(), public: x.get("public").b(), send: x.get("send").b(), sync: x.get("sync").b(), span: x.get("span").s().to_string() })
            .collect();
        let unsafe_sites = j.get("unsafe_sites").arr().iter().map(|x| (x.get("kind").s().to_string(), x.get("at").s().to_string())).collect();
        let mut errkinds = None;
        for t in &types {
            if let TK::Adt { path, variants: Some(v), .. } = &t.k {
                if path == "std::io::ErrorKind" {
                    errkinds = Some(std::rc::Rc::new(v.iter().map(|x| (x.name.clone(), x.discr)).collect()));
                }
            }
        }
        Prog { auto, unsafe_sites, errkinds, types, fns, roots, items, adts, by_s }
    }
    pub fn k(&self, t: Ty) -> &TK {
        match self.types.get(t as usize) {
            Some(x) => &x.k,
            None => &TK::Other,
        }
    }
    pub fn ts(&self, t: Ty) -> &str {
        self.types.get(t as usize).map(|x| x.s.as_str()).unwrap_or("?")
    }
    pub fn adt_path(&self, t: Ty) -> &str {
        match self.k(t) {
            TK::Adt { path, .. } => path,
            _ => "",
        }
    }
    pub fn variants(&self, t: Ty) -> Option<&Vec<VariantI>> {
        match self.k(t) {
            TK::Adt { variants, .. } => variants.as_ref(),
            _ => None,
        }
    }
    pub fn is_enum(&self, t: Ty) -> bool {
        matches!(self.k(t), TK::Adt { is_enum: true, .. })
    }
    pub fn is_local_adt(&self, t: Ty) -> bool {
        matches!(self.k(t), TK::Adt { local: true, .. })
    }
    pub fn pointee(&self, t: Ty) -> Option<Ty> {
        match self.k(t) {
            TK::Ref(e, _) | TK::Ptr(e, _) => Some(*e),
            _ => None,
        }
    }
    pub fn int_range(&self, t: Ty) -> Option<(i128, i128)> {
        match self.k(t) {
            TK::Int { bits, signed } => Some(if *signed {
                if *bits >= 127 { (-(1i128 << 126), 1i128 << 126) } else { (-(1i128 << (bits - 1)), (1i128 << (bits - 1)) - 1) }
            } else if *bits >= 127 {
                (0, 1i128 << 126)
            } else {
                (0, (1i128 << bits) - 1)
            }),
            TK::Char => Some((0, 0x10ffff)),
            _ => None,
        }
    }
}
