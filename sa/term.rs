// Hash-consed terms, linear expressions over them, and quantifier-free formulas.
use std::cell::RefCell;
use std::collections::{BTreeSet};
use crate::fx::{HashMap};
use std::rc::Rc;

pub type T = u32;
pub type Sym = &'static str;

#[derive(Clone, PartialEq, Eq, Hash, Debug, PartialOrd, Ord, Default)]
pub struct Lin {
    pub c: i128,
    pub m: Vec<(T, i128)>,
}
#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum K {
    Fresh(u32, Sym),
    App(Sym, Vec<T>),
    Lin(Lin),
    Lit(Rc<Vec<u8>>),
}
struct Info {
    k: K,
    // every atom occurring in the term, itself included (not for Lin nodes)
    deep: Rc<BTreeSet<T>>,
    range: Option<(i128, i128)>,
}
#[derive(Default)]
struct Pool {
    infos: Vec<Info>,
    map: HashMap<K, T>,
    fresh: u32,
    syms: HashMap<String, Sym>,
}
thread_local! {
    static P: RefCell<Pool> = RefCell::new(Pool::default());
}
pub fn sym(s: &str) -> Sym {
    P.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(x) = p.syms.get(s) {
            return *x;
        }
        let l: Sym = Box::leak(s.to_string().into_boxed_str());
        p.syms.insert(s.to_string(), l);
        l
    })
}
fn intern(k: K) -> T {
    P.with(|p| {
        let mut p = p.borrow_mut();
        if let Some(t) = p.map.get(&k) {
            return *t;
        }
        let t = p.infos.len() as T;
        let mut deep = BTreeSet::new();
        match &k {
            K::Fresh(..) => {
                deep.insert(t);
            }
            K::Lit(..) => {}
            K::App(_, a) => {
                deep.insert(t);
                for x in a {
                    deep.extend(p.infos[*x as usize].deep.iter().cloned());
                }
            }
            K::Lin(l) => {
                for (x, _) in &l.m {
                    deep.extend(p.infos[*x as usize].deep.iter().cloned());
                }
            }
        }
        p.infos.push(Info { k: k.clone(), deep: Rc::new(deep), range: None });
        p.map.insert(k, t);
        t
    })
}
pub fn fresh(hint: &str) -> T {
    let s = sym(hint);
    let n = P.with(|p| {
        let mut p = p.borrow_mut();
        p.fresh += 1;
        p.fresh
    });
    intern(K::Fresh(n, s))
}
pub fn app(f: &str, mut args: Vec<T>) -> T {
    // equality is symmetric: one order for its arguments, also after substitutions
    if f == "eqs" {
        args.sort();
    }
    intern(K::App(sym(f), args))
}
pub fn lit(b: &[u8]) -> T {
    intern(K::Lit(Rc::new(b.to_vec())))
}
pub fn kind(t: T) -> K {
    P.with(|p| p.borrow().infos[t as usize].k.clone())
}
pub fn is_fresh(t: T) -> bool {
    P.with(|p| matches!(p.borrow().infos[t as usize].k, K::Fresh(..)))
}
/// A new atom like another one.
pub fn refresh(t: T) -> T {
    match kind(t) {
        K::Fresh(_, s) => {
            let n = fresh(s);
            if let Some(r) = range(t) {
                set_range(n, r);
            }
            n
        }
        _ => t,
    }
}
pub fn deep(t: T) -> Rc<BTreeSet<T>> {
    P.with(|p| p.borrow().infos[t as usize].deep.clone())
}
pub fn range(t: T) -> Option<(i128, i128)> {
    P.with(|p| p.borrow().infos[t as usize].range)
}
pub fn set_range(t: T, r: (i128, i128)) {
    P.with(|p| {
        let mut p = p.borrow_mut();
        let i = &mut p.infos[t as usize];
        i.range = Some(match i.range {
            None => r,
            Some(o) => (o.0.max(r.0), o.1.min(r.1)),
        })
    })
}
pub fn ranged(t: T, r: (i128, i128)) -> T {
    set_range(t, r);
    t
}
pub fn is_app(t: T, f: &str) -> Option<Vec<T>> {
    match kind(t) {
        K::App(g, a) if g == f => Some(a),
        _ => None,
    }
}
pub fn lit_of(t: T) -> Option<Rc<Vec<u8>>> {
    match kind(t) {
        K::Lit(b) => Some(b),
        _ => None,
    }
}
/// The term denoting a linear expression (an atom denotes itself).
pub fn tl(l: &Lin) -> T {
    if l.c == 0 && l.m.len() == 1 && l.m[0].1 == 1 {
        return l.m[0].0;
    }
    intern(K::Lin(l.clone()))
}
pub fn lt(t: T) -> Lin {
    match kind(t) {
        K::Lin(l) => l,
        _ => Lin::atom(t),
    }
}
pub fn gcd(a: i128, b: i128) -> i128 {
    if b == 0 {
        a.abs()
    } else {
        gcd(b, a % b)
    }
}
impl Lin {
    pub fn k(c: i128) -> Lin {
        Lin { c, m: vec![] }
    }
    pub fn atom(t: T) -> Lin {
        Lin { c: 0, m: vec![(t, 1)] }
    }
    pub fn is_const(&self) -> Option<i128> {
        if self.m.is_empty() {
            Some(self.c)
        } else {
            None
        }
    }
    pub fn as_atom(&self) -> Option<T> {
        if self.c == 0 && self.m.len() == 1 && self.m[0].1 == 1 {
            Some(self.m[0].0)
        } else {
            None
        }
    }
    pub fn add_scaled(&self, o: &Lin, k: i128) -> Lin {
        let mut r = Vec::with_capacity(self.m.len() + o.m.len());
        let (mut i, mut j) = (0, 0);
        while i < self.m.len() || j < o.m.len() {
            if j >= o.m.len() || (i < self.m.len() && self.m[i].0 < o.m[j].0) {
                r.push(self.m[i]);
                i += 1;
            } else if i >= self.m.len() || o.m[j].0 < self.m[i].0 {
                let x = o.m[j].1.saturating_mul(k);
                if x != 0 {
                    r.push((o.m[j].0, x));
                }
                j += 1;
            } else {
                let x = self.m[i].1.saturating_add(o.m[j].1.saturating_mul(k));
                if x != 0 {
                    r.push((self.m[i].0, x));
                }
                i += 1;
                j += 1;
            }
        }
        Lin { c: self.c.saturating_add(o.c.saturating_mul(k)), m: r }
    }
    pub fn add(&self, o: &Lin) -> Lin {
        self.add_scaled(o, 1)
    }
    pub fn sub(&self, o: &Lin) -> Lin {
        self.add_scaled(o, -1)
    }
    pub fn addc(&self, c: i128) -> Lin {
        Lin { c: self.c.saturating_add(c), m: self.m.clone() }
    }
    pub fn scale(&self, k: i128) -> Lin {
        if k == 0 {
            return Lin::k(0);
        }
        Lin { c: self.c.saturating_mul(k), m: self.m.iter().map(|(t, x)| (*t, x.saturating_mul(k))).collect() }
    }
    pub fn neg(&self) -> Lin {
        self.scale(-1)
    }
    pub fn coef(&self, t: T) -> i128 {
        self.m.iter().find(|x| x.0 == t).map(|x| x.1).unwrap_or(0)
    }
    pub fn mentions(&self, t: T) -> bool {
        self.m.iter().any(|(a, _)| deep(*a).contains(&t))
    }
    pub fn deep(&self) -> BTreeSet<T> {
        let mut s = BTreeSet::new();
        for (a, _) in &self.m {
            s.extend(deep(*a).iter().cloned());
        }
        s
    }
    pub fn gcd(&self) -> i128 {
        self.m.iter().fold(0, |g, x| gcd(g, x.1))
    }
    // tighten  self <= 0
    pub fn tighten_le(&self) -> Lin {
        let g = self.gcd();
        if g <= 1 {
            return self.clone();
        }
        // sum + c <= 0  =>  sum/g <= floor(-c/g)
        let b = (-self.c).div_euclid(g);
        Lin { c: -b, m: self.m.iter().map(|(t, x)| (*t, x / g)).collect() }
    }
    /// Bounds from the static ranges of the atoms only.
    pub fn bounds(&self) -> (Option<i128>, Option<i128>) {
        let (mut lo, mut hi) = (Some(self.c), Some(self.c));
        for (a, k) in &self.m {
            let r = range(*a);
            let (l, h) = match r {
                Some((l, h)) => (Some(l), Some(h)),
                None => (None, None),
            };
            let (l, h) = if *k > 0 { (l, h) } else { (h, l) };
            lo = match (lo, l) {
                (Some(x), Some(y)) => Some(x.saturating_add(y.saturating_mul(*k))),
                _ => None,
            };
            hi = match (hi, h) {
                (Some(x), Some(y)) => Some(x.saturating_add(y.saturating_mul(*k))),
                _ => None,
            };
        }
        (lo, hi)
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum F {
    T,
    F,
    Le(Lin), // <= 0
    Eq(Lin), // == 0
    Ne(Lin), // != 0
    And(Rc<F>, Rc<F>),
    Or(Rc<F>, Rc<F>),
}
impl F {
    pub fn le(a: &Lin, b: &Lin) -> F {
        F::le0(a.sub(b))
    }
    pub fn lt(a: &Lin, b: &Lin) -> F {
        F::le0(a.sub(b).addc(1))
    }
    pub fn eq(a: &Lin, b: &Lin) -> F {
        F::eq0(a.sub(b))
    }
    pub fn ne(a: &Lin, b: &Lin) -> F {
        F::eq(a, b).not()
    }
    pub fn le0(l: Lin) -> F {
        match l.is_const() {
            Some(c) => F::of(c <= 0),
            None => F::Le(l.tighten_le()),
        }
    }
    pub fn eq0(l: Lin) -> F {
        if let Some(c) = l.is_const() {
            return F::of(c == 0);
        }
        let g = l.gcd();
        if g > 1 {
            if l.c % g != 0 {
                return F::F;
            }
            return F::Eq(Lin { c: l.c / g, m: l.m.iter().map(|(t, x)| (*t, x / g)).collect() });
        }
        F::Eq(l)
    }
    pub fn of(b: bool) -> F {
        if b {
            F::T
        } else {
            F::F
        }
    }
    pub fn atom(t: T) -> F {
        set_range(t, (0, 1));
        F::Eq(Lin::atom(t).addc(-1))
    }
    pub fn not(&self) -> F {
        match self {
            F::T => F::F,
            F::F => F::T,
            F::Le(l) => F::Le(l.neg().addc(1)),
            F::Eq(l) => {
                // booleans: b != 1 is b == 0
                if l.m.len() == 1 && l.m[0].1.abs() == 1 && range(l.m[0].0) == Some((0, 1)) {
                    let v = -l.c * l.m[0].1;
                    return match v {
                        1 => F::Eq(Lin::atom(l.m[0].0)),
                        0 => F::Eq(Lin::atom(l.m[0].0).addc(-1)),
                        _ => F::T,
                    };
                }
                F::Ne(l.clone())
            }
            F::Ne(l) => F::eq0(l.clone()),
            F::And(a, b) => F::or(&a.not(), &b.not()),
            F::Or(a, b) => F::and(&a.not(), &b.not()),
        }
    }
    pub fn and(a: &F, b: &F) -> F {
        match (a, b) {
            (F::F, _) | (_, F::F) => F::F,
            (F::T, x) | (x, F::T) => x.clone(),
            _ => F::And(Rc::new(a.clone()), Rc::new(b.clone())),
        }
    }
    pub fn or(a: &F, b: &F) -> F {
        match (a, b) {
            (F::T, _) | (_, F::T) => F::T,
            (F::F, x) | (x, F::F) => x.clone(),
            _ => F::Or(Rc::new(a.clone()), Rc::new(b.clone())),
        }
    }
    pub fn map(&self, f: &dyn Fn(&Lin) -> Lin) -> F {
        match self {
            F::T => F::T,
            F::F => F::F,
            F::Le(l) => F::le0(f(l)),
            F::Eq(l) => F::eq0(f(l)),
            F::Ne(l) => F::eq0(f(l)).not(),
            F::And(a, b) => F::and(&a.map(f), &b.map(f)),
            F::Or(a, b) => F::or(&a.map(f), &b.map(f)),
        }
    }
    pub fn visit(&self, f: &mut dyn FnMut(&Lin)) {
        match self {
            F::T | F::F => {}
            F::Le(l) | F::Eq(l) | F::Ne(l) => f(l),
            F::And(a, b) | F::Or(a, b) => {
                a.visit(f);
                b.visit(f)
            }
        }
    }
}

/// Deep substitution of atoms by linear expressions.
pub struct Subst<'a> {
    pub f: &'a dyn Fn(T) -> Option<Lin>,
    pub touches: &'a dyn Fn(&BTreeSet<T>) -> bool,
    memo: RefCell<HashMap<T, T>>,
}
impl<'a> Subst<'a> {
    pub fn new(f: &'a dyn Fn(T) -> Option<Lin>, touches: &'a dyn Fn(&BTreeSet<T>) -> bool) -> Self {
        Subst { f, touches, memo: RefCell::new(HashMap::default()) }
    }
    pub fn lin(&self, l: &Lin) -> Lin {
        let mut r = Lin::k(l.c);
        for (a, k) in &l.m {
            r = r.add_scaled(&lt(self.t(*a)), *k);
        }
        r
    }
    pub fn t(&self, t: T) -> T {
        if !(self.touches)(&deep(t)) {
            return t;
        }
        if let Some(x) = self.memo.borrow().get(&t) {
            return *x;
        }
        let r = match kind(t) {
            K::Lin(l) => tl(&self.lin(&l)),
            _ => match (self.f)(t) {
                Some(l) => tl(&l),
                None => match kind(t) {
                    K::App(f, a) => {
                        let b: Vec<T> = a.iter().map(|x| self.t(*x)).collect();
                        if b == a {
                            t
                        } else {
                            mk(f, b, range(t))
                        }
                    }
                    _ => t,
                },
            },
        };
        self.memo.borrow_mut().insert(t, r);
        r
    }
}
/// Builds an application, simplifying the few interpreted symbols.
pub fn mk(f: Sym, a: Vec<T>, r: Option<(i128, i128)>) -> T {
    match f {
        "sel" => return sel(a[0], &lt(a[1]), r),
        "sl" => return sl(a[0], &lt(a[1]), &lt(a[2])),
        "bits" => {
            let l = lt(a[0]);
            if let (Some(c), Some(lo), Some(w)) = (l.is_const(), lt(a[1]).is_const(), lt(a[2]).is_const()) {
                if c >= 0 {
                    return tl(&Lin::k((c >> lo) & ((1i128 << w) - 1)));
                }
            }
        }
        "len" => {
            if let Some(b) = lit_of(a[0]) {
                return tl(&Lin::k(b.len() as i128));
            }
            if let Some(x) = is_app(a[0], "sl") {
                return x[2];
            }
        }
        _ => {}
    }
    let t = app(f, a);
    if let Some(r) = r {
        set_range(t, r);
    }
    t
}
/// The byte/element of content `c` at index `i`.
pub fn sel(c: T, i: &Lin, r: Option<(i128, i128)>) -> T {
    if let (Some(b), Some(k)) = (lit_of(c), i.is_const()) {
        if k >= 0 && (k as usize) < b.len() {
            return tl(&Lin::k(b[k as usize] as i128));
        }
    }
    if let Some(a) = is_app(c, "sl") {
        return sel(a[0], &i.add(&lt(a[1])), r);
    }
    let t = app("sel", vec![c, tl(i)]);
    if let Some(r) = r {
        set_range(t, r);
    }
    t
}
/// The content of the sub-slice of `c` at `off` of length `len`.
pub fn sl(c: T, off: &Lin, len: &Lin) -> T {
    if let Some(a) = is_app(c, "sl") {
        return sl(a[0], &lt(a[1]).add(off), len);
    }
    if let (Some(b), Some(o), Some(n)) = (lit_of(c), off.is_const(), len.is_const()) {
        if o >= 0 && n >= 0 && o + n <= b.len() as i128 {
            return lit(&b[o as usize..(o + n) as usize]);
        }
    }
    if let Some(a) = is_app(c, "splice") {
        if tl(off) == a[1] && tl(len) == a[2] {
            return a[3];
        }
    }
    if off.is_const() == Some(0) && tl(len) == len_t(c) {
        return c;
    }
    app("sl", vec![c, tl(off), tl(len)])
}
pub fn len_t(c: T) -> T {
    mk("len", vec![c], Some((0, (1i128 << 63) - 1)))
}
pub fn show(t: T) -> String {
    match kind(t) {
        K::Fresh(n, s) => format!("{}#{}", s, n),
        K::App(f, a) => format!("{}({})", f, a.iter().map(|x| show(*x)).collect::<Vec<_>>().join(",")),
        K::Lin(l) => showl(&l),
        K::Lit(b) => format!("{:?}", String::from_utf8_lossy(&b)),
    }
}
pub fn showl(l: &Lin) -> String {
    let mut s = String::new();
    for (a, k) in &l.m {
        if *k < 0 {
            s.push('-');
        } else if !s.is_empty() {
            s.push('+');
        }
        if k.abs() != 1 {
            s += &format!("{}*", k.abs());
        }
        s += &show(*a);
    }
    if l.c != 0 || s.is_empty() {
        if l.c >= 0 && !s.is_empty() {
            s.push('+');
        }
        s += &l.c.to_string();
    }
    s
}
pub fn showf(f: &F) -> String {
    match f {
        F::T => "true".into(),
        F::F => "false".into(),
        F::Le(l) => format!("{}<=0", showl(l)),
        F::Eq(l) => format!("{}==0", showl(l)),
        F::Ne(l) => format!("{}!=0", showl(l)),
        F::And(a, b) => format!("({} && {})", showf(a), showf(b)),
        F::Or(a, b) => format!("({} || {})", showf(a), showf(b)),
    }
}

/// How many fresh atoms there are.
pub fn fresh_mark() -> u64 {
    P.with(|p| p.borrow().fresh as u64)
}
/// The newest fresh atom in a term.
pub fn newest(t: T) -> u64 {
    let mut n = match kind(t) {
        K::Fresh(n, _) => n as u64,
        _ => 0,
    };
    for x in deep(t).iter() {
        if let K::Fresh(k, _) = kind(*x) {
            n = n.max(k as u64);
        }
    }
    n
}
