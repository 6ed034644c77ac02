// Conjunctions of linear facts over terms: solved equalities, inequalities (decided by
// gcd-tightened Fourier-Motzkin elimination on the relevant part) and disequalities.
use crate::fx::HashSet;
use crate::term::*;
use std::collections::{BTreeMap, BTreeSet};
use crate::fx::{HashMap};
use std::cell::Cell;

thread_local! {
    pub static FM_CALLS: Cell<u64> = Cell::new(0);
}

#[derive(Clone, Default, Debug)]
pub struct Facts {
    pub eq: BTreeMap<T, Lin>,
    pub le: Vec<Lin>,
    pub ne: Vec<Lin>,
    pub bot: bool,
}

impl Facts {
    /// Every atom the facts speak of.
    pub fn atoms(&self) -> BTreeSet<T> {
        let mut r = BTreeSet::new();
        for (k, l) in &self.eq {
            r.extend(deep(*k).iter());
            for (t, _) in &l.m {
                r.extend(deep(*t).iter());
            }
        }
        for l in self.le.iter().chain(self.ne.iter()) {
            for (t, _) in &l.m {
                r.extend(deep(*t).iter());
            }
        }
        r
    }
    fn touched(&self, s: &BTreeSet<T>) -> bool {
        if self.eq.len() < s.len() {
            self.eq.keys().any(|k| s.contains(k))
        } else {
            s.iter().any(|x| self.eq.contains_key(x))
        }
    }
    pub fn norm(&self, l: &Lin) -> Lin {
        if self.eq.is_empty() {
            return l.clone();
        }
        let mut cur = l.clone();
        for _ in 0..6 {
            if !cur.m.iter().any(|(a, _)| self.touched(&deep(*a))) {
                break;
            }
            let f = |t: T| self.eq.get(&t).cloned();
            let tc = |s: &BTreeSet<T>| self.touched(s);
            let s = Subst::new(&f, &tc);
            cur = s.lin(&cur);
        }
        cur
    }
    pub fn norm_t(&self, t: T) -> T {
        if self.eq.is_empty() {
            return t;
        }
        let mut cur = t;
        for _ in 0..6 {
            if !self.touched(&deep(cur)) {
                break;
            }
            let f = |t: T| self.eq.get(&t).cloned();
            let tc = |s: &BTreeSet<T>| self.touched(s);
            let s = Subst::new(&f, &tc);
            cur = s.t(cur);
        }
        cur
    }
    pub fn assume(&mut self, f: &F) -> bool {
        if self.bot {
            return false;
        }
        match f {
            F::T => {}
            F::F => self.bot = true,
            F::Le(l) => self.add_le(l),
            F::Eq(l) => self.add_eq(l),
            F::Ne(l) => self.add_ne(l),
            F::And(a, b) => {
                self.assume(a);
                self.assume(b);
            }
            F::Or(a, b) => {
                // keep whichever side remains possible; undecided disjunctions are dropped
                if self.implies(&a.not()) {
                    self.assume(b);
                } else if self.implies(&b.not()) {
                    self.assume(a);
                }
            }
        }
        !self.bot
    }
    pub fn implies(&self, f: &F) -> bool {
        if self.bot {
            return true;
        }
        match f {
            F::T => true,
            F::F => false,
            F::Le(l) => self.ent_le(l),
            F::Eq(l) => {
                let n = self.norm(l);
                match n.is_const() {
                    Some(c) => c == 0,
                    None => {
                        let g = n.gcd();
                        if g > 1 && n.c % g != 0 {
                            return false;
                        }
                        self.ent_le_n(&n) && self.ent_le_n(&n.neg())
                    }
                }
            }
            F::Ne(l) => {
                let n = self.norm(l);
                match n.is_const() {
                    Some(c) => c != 0,
                    None => {
                        let g = n.gcd();
                        if g > 1 && n.c % g != 0 {
                            return true;
                        }
                        if self.has_ne(&n) {
                            return true;
                        }
                        self.ent_le_n(&n.addc(1)) || self.ent_le_n(&n.neg().addc(1))
                    }
                }
            }
            F::And(a, b) => self.implies(a) && self.implies(b),
            F::Or(a, b) => {
                if self.implies(a) || self.implies(b) {
                    return true;
                }
                let mut f2 = self.clone();
                f2.assume(&a.not()) && f2.implies(b)
            }
        }
    }
    fn has_ne(&self, n: &Lin) -> bool {
        let m = n.neg();
        self.ne.iter().any(|x| x == n || *x == m)
    }
    pub fn ent_le(&self, l: &Lin) -> bool {
        self.ent_le_n(&self.norm(l))
    }
    fn unit_bounds(&self, a: T) -> (Option<i128>, Option<i128>) {
        let (mut lo, mut hi) = match range(a) {
            Some((l, h)) => (Some(l), Some(h)),
            None => (None, None),
        };
        for l in &self.le {
            if l.m.len() == 1 && l.m[0].0 == a {
                let k = l.m[0].1;
                // k*a + c <= 0
                if k > 0 {
                    let b = (-l.c).div_euclid(k);
                    hi = Some(hi.map_or(b, |h| h.min(b)));
                } else {
                    let kk = -k;
                    // a >= c/kk
                    let b = -((-l.c).div_euclid(kk));
                    lo = Some(lo.map_or(b, |x| x.max(b)));
                }
            }
        }
        (lo, hi)
    }
    pub fn bounds(&self, l: &Lin) -> (Option<i128>, Option<i128>) {
        let n = self.norm(l);
        let (mut lo, mut hi) = (Some(n.c), Some(n.c));
        for (a, k) in &n.m {
            let (l, h) = self.unit_bounds(*a);
            let (l, h) = if *k > 0 { (l, h) } else { (h, l) };
            lo = lo.and_then(|x| l.map(|y| x.saturating_add(y.saturating_mul(*k))));
            hi = hi.and_then(|x| h.map(|y| x.saturating_add(y.saturating_mul(*k))));
        }
        (lo, hi)
    }
    // l normalised; is l <= 0 implied?
    fn ent_le_n(&self, l: &Lin) -> bool {
        if let Some(c) = l.is_const() {
            return c <= 0;
        }
        let l = l.tighten_le();
        // syntactic
        for f in &self.le {
            if f.m == l.m && f.c >= l.c {
                return true;
            }
        }
        let mut hi = Some(l.c);
        for (a, k) in &l.m {
            let (x, y) = self.unit_bounds(*a);
            let b = if *k > 0 { y } else { x };
            hi = match (hi, b) {
                (Some(h), Some(v)) => Some(h.saturating_add(v.saturating_mul(*k))),
                _ => None,
            };
            if hi.is_none() {
                break;
            }
        }
        if let Some(h) = hi {
            if h <= 0 {
                return true;
            }
        }
        // relevant constraints
        let mut atoms: BTreeSet<T> = l.m.iter().map(|x| x.0).collect();
        let mut used = vec![false; self.le.len()];
        let mut cons: Vec<Lin> = vec![l.neg().addc(1)];
        let mut any = false;
        for _hop in 0..5 {
            let mut added: Vec<T> = vec![];
            for (i, f) in self.le.iter().enumerate() {
                if used[i] || !f.m.iter().any(|x| atoms.contains(&x.0)) {
                    continue;
                }
                used[i] = true;
                any = true;
                added.extend(f.m.iter().map(|x| x.0));
                cons.push(f.clone());
                if cons.len() > 64 {
                    break;
                }
            }
            let n = atoms.len();
            atoms.extend(added);
            if atoms.len() == n || cons.len() > 64 {
                break;
            }
        }
        if !any {
            return false;
        }
        for a in &atoms {
            if let Some((lo, h)) = range(*a) {
                cons.push(Lin { c: lo, m: vec![(*a, -1)] });
                if h < (1i128 << 63) || l.coef(*a) != 0 {
                    cons.push(Lin { c: -h, m: vec![(*a, 1)] });
                }
            }
        }
        FM_CALLS.with(|c| c.set(c.get() + 1));
        infeasible(cons)
    }
    fn add_le(&mut self, l: &Lin) {
        let n = self.norm(l).tighten_le();
        if let Some(c) = n.is_const() {
            if c > 0 {
                self.bot = true;
            }
            return;
        }
        if self.ent_le_n(&n) {
            return;
        }
        if self.ent_le_n(&n.neg().addc(1)) {
            self.bot = true;
            return;
        }
        // equality?
        let g = n.gcd();
        if n.m.iter().any(|(a, k)| k.abs() == g && !n.m.iter().any(|(b, _)| b != a && deep(*b).contains(a))) && self.ent_le_n(&n.neg()) {
            self.add_eq(&n);
            return;
        }
        // replace weaker parallel facts
        self.le.retain(|f| !(f.m == n.m && f.c <= n.c));
        self.le.push(n.clone());
        // tighten disequalities
        let nes: Vec<Lin> = self.ne.iter().filter(|x| x.m.iter().any(|(a, _)| n.coef(*a) != 0)).cloned().collect();
        for x in nes {
            if self.bot {
                return;
            }
            let x = self.norm(&x);
            if x.is_const() == Some(0) {
                self.bot = true;
                return;
            }
            if self.ent_le_n(&x) {
                self.ne.retain(|y| *y != x);
                self.add_le(&x.addc(1));
            } else if self.ent_le_n(&x.neg()) {
                self.ne.retain(|y| *y != x);
                self.add_le(&x.neg().addc(1));
            }
        }
    }
    fn add_ne(&mut self, l: &Lin) {
        let n = self.norm(l);
        if let Some(c) = n.is_const() {
            if c == 0 {
                self.bot = true;
            }
            return;
        }
        let g = n.gcd();
        if g > 1 && n.c % g != 0 {
            return;
        }
        if self.has_ne(&n) {
            return;
        }
        if self.ent_le_n(&n) {
            self.add_le(&n.addc(1));
        } else if self.ent_le_n(&n.neg()) {
            self.add_le(&n.neg().addc(1));
        } else {
            self.ne.push(n);
        }
    }
    pub fn add_eq(&mut self, l: &Lin) {
        let mut work = vec![l.clone()];
        let mut les: Vec<Lin> = vec![];
        while let Some(l) = work.pop() {
            if self.bot {
                return;
            }
            let n = self.norm(&l);
            if let Some(c) = n.is_const() {
                if c != 0 {
                    self.bot = true;
                    return;
                }
                continue;
            }
            let g = n.gcd();
            if n.c % g != 0 {
                self.bot = true;
                return;
            }
            let n = if g > 1 { Lin { c: n.c / g, m: n.m.iter().map(|(t, x)| (*t, x / g)).collect() } } else { n };
            // choose the atom to eliminate: coefficient +-1, not occurring inside the others
            let mut pick: Option<(T, i128)> = None;
            for (a, k) in n.m.iter() {
                if k.abs() != 1 {
                    continue;
                }
                if n.m.iter().any(|(b, _)| b != a && deep(*b).contains(a)) {
                    continue;
                }
                let better = match pick {
                    None => true,
                    Some((p, _)) => rank(*a) >= rank(p),
                };
                if better {
                    pick = Some((*a, *k));
                }
            }
            let (x, k) = match pick {
                None => {
                    les.push(n.clone());
                    les.push(n.neg());
                    continue;
                }
                Some(p) => p,
            };
            // x*k + rest = 0  =>  x = -rest/k
            let mut rest = n.clone();
            rest.m.retain(|(a, _)| *a != x);
            let val = rest.scale(-k);
            // check bounds
            if let Some((lo, hi)) = range(x) {
                les.push(Lin::k(lo).sub(&val));
                les.push(val.addc(-hi));
            }
            self.eq.insert(x, val.clone());
            let keys: Vec<T> = self.eq.keys().cloned().collect();
            for kx in keys {
                if kx == x {
                    continue;
                }
                let v = self.eq[&kx].clone();
                if deep(kx).contains(&x) {
                    self.eq.remove(&kx);
                    work.push(Lin::atom(kx).sub(&v));
                } else if v.mentions(x) {
                    let nv = self.norm(&v);
                    self.eq.insert(kx, nv);
                }
            }
            let mut keep = vec![];
            for l in std::mem::take(&mut self.le) {
                if l.mentions(x) {
                    les.push(l);
                } else {
                    keep.push(l);
                }
            }
            self.le = keep;
            let mut keep = vec![];
            let mut nes = vec![];
            for l in std::mem::take(&mut self.ne) {
                if l.mentions(x) {
                    nes.push(l);
                } else {
                    keep.push(l);
                }
            }
            self.ne = keep;
            for l in nes {
                let n = self.norm(&l);
                match n.is_const() {
                    Some(0) => {
                        self.bot = true;
                        return;
                    }
                    Some(_) => {}
                    None => {
                        if !self.has_ne(&n) {
                            self.ne.push(n)
                        }
                    }
                }
            }
        }
        for l in les {
            if self.bot {
                return;
            }
            self.add_le(&l);
        }
        // disequalities that became decidable
        let nes = std::mem::take(&mut self.ne);
        for n in nes {
            if self.bot {
                return;
            }
            self.add_ne(&n);
        }
    }
    /// All facts as formulas.
    pub fn all(&self) -> Vec<F> {
        let mut v = vec![];
        for (x, l) in &self.eq {
            v.push(F::Eq(Lin::atom(*x).sub(l)));
        }
        for l in &self.le {
            v.push(F::Le(l.clone()));
        }
        for l in &self.ne {
            v.push(F::Ne(l.clone()));
        }
        v
    }
    pub fn show(&self) -> String {
        let mut v: Vec<String> = vec![];
        for (x, l) in &self.eq {
            v.push(format!("{} := {}", show(*x), showl(l)));
        }
        for l in &self.le {
            v.push(format!("{} <= 0", showl(l)));
        }
        for l in &self.ne {
            v.push(format!("{} != 0", showl(l)));
        }
        v.join("\n  ")
    }
}
// prefer to eliminate freshly made plain atoms, keep parameters and structured terms
fn rank(t: T) -> (u8, T) {
    match kind(t) {
        K::Fresh(..) => (1, t),
        K::App(f, _) if f == "sel" || f == "discr" || f == "bits" => (2, t),
        _ => (0, t),
    }
}

thread_local! {
    static MEMO: std::cell::RefCell<HashMap<Vec<Lin>, bool>> = Default::default();
}
pub fn infeasible(mut cons: Vec<Lin>) -> bool {
    cons.sort();
    cons.dedup();
    if let Some(r) = MEMO.with(|m| m.borrow().get(&cons).cloned()) {
        return r;
    }
    let r = infeasible_(cons.clone());
    MEMO.with(|m| {
        let mut m = m.borrow_mut();
        if m.len() > 400_000 {
            m.clear();
        }
        m.insert(cons, r)
    });
    r
}
fn infeasible_(cons: Vec<Lin>) -> bool {
    let mut cs: HashMap<Vec<(T, i128)>, i128> = HashMap::default();
    let add = |cs: &mut HashMap<Vec<(T, i128)>, i128>, l: Lin| -> bool {
        let l = l.tighten_le();
        if l.m.is_empty() {
            return l.c > 0;
        }
        if l.m.iter().any(|x| x.1.abs() > (1i128 << 80)) || l.c.abs() > (1i128 << 100) {
            return false;
        }
        let e = cs.entry(l.m).or_insert(i128::MIN);
        if l.c > *e {
            *e = l.c;
        }
        false
    };
    for c in cons {
        if add(&mut cs, c) {
            return true;
        }
    }
    for _ in 0..80 {
        // count
        let mut cnt: BTreeMap<T, (usize, usize)> = BTreeMap::new();
        for (m, _) in &cs {
            for (a, k) in m {
                let e = cnt.entry(*a).or_insert((0, 0));
                if *k > 0 {
                    e.0 += 1
                } else {
                    e.1 += 1
                }
            }
        }
        let best = cnt.iter().min_by_key(|(_, (p, n))| (p * n) as i64 - (*p + *n) as i64);
        let x = match best {
            None => return false,
            Some((x, _)) => *x,
        };
        let mut pos = vec![];
        let mut neg = vec![];
        let mut rest: HashMap<Vec<(T, i128)>, i128> = HashMap::default();
        for (m, c) in cs {
            let l = Lin { c, m };
            let k = l.coef(x);
            if k > 0 {
                pos.push((l, k));
            } else if k < 0 {
                neg.push((l, -k));
            } else {
                rest.insert(l.m, l.c);
            }
        }
        if pos.len() * neg.len() + rest.len() > 1500 {
            return false;
        }
        for (p, kp) in &pos {
            for (n, kn) in &neg {
                let g = gcd(*kp, *kn);
                let l = p.scale(kn / g).add_scaled(n, kp / g);
                if add(&mut rest, l) {
                    return true;
                }
            }
        }
        cs = rest;
    }
    false
}

impl Facts {
    /// Forgets atoms that nothing refers to any more, keeping what follows for the others.
    pub fn project(&mut self, live: &HashSet<T>) {
        if self.bot {
            return;
        }
        let alive = |t: T| deep(t).iter().all(|x| !matches!(kind(*x), K::Fresh(..)) || live.contains(x));
        let lin_alive = |l: &Lin| l.m.iter().all(|(a, _)| alive(*a));
        // equalities
        for _ in 0..64 {
            let hit = self.eq.iter().find(|(x, l)| !alive(**x) || !lin_alive(l)).map(|(x, l)| (*x, l.clone()));
            let (x, l) = match hit {
                None => break,
                Some(h) => h,
            };
            self.eq.remove(&x);
            if !alive(x) {
                continue;
            }
            // x = k*d + rest with d dead: d = k*(x - rest)
            let d = l.m.iter().find(|(a, k)| !alive(*a) && k.abs() == 1 && l.m.iter().all(|(b, _)| b == a || !deep(*b).contains(a)) && !deep(x).contains(a));
            if let Some((d, k)) = d.cloned() {
                let mut rest = l.clone();
                rest.m.retain(|y| y.0 != d);
                let e = Lin::atom(x).sub(&rest).scale(k);
                let f = |t: T| if t == d { Some(e.clone()) } else { None };
                let tc = |s: &BTreeSet<T>| s.contains(&d);
                let sb = Subst::new(&f, &tc);
                let mut n = Facts { eq: Default::default(), le: vec![], ne: vec![], bot: false };
                n.eq = self.eq.iter().map(|(x, l)| (*x, sb.lin(l))).collect();
                n.le = self.le.iter().map(|l| sb.lin(l).tighten_le()).collect();
                n.ne = self.ne.iter().map(|l| sb.lin(l)).collect();
                if let Some((lo, hi)) = range(d) {
                    n.le.push(e.neg().addc(lo).tighten_le());
                    n.le.push(e.addc(-hi).tighten_le());
                }
                *self = n;
            } else if l.m.iter().all(|(a, _)| alive(*a) || range(*a).is_some()) {
                let e = Lin::atom(x).sub(&l);
                self.le.push(e.clone());
                self.le.push(e.neg());
            }
        }
        self.eq.retain(|x, l| alive(*x) && lin_alive(l));
        self.ne.retain(|l| lin_alive(l));
        // inequalities
        for _ in 0..64 {
            let mut cnt: BTreeMap<T, (usize, usize)> = BTreeMap::new();
            for l in &self.le {
                for (a, k) in &l.m {
                    if !alive(*a) {
                        let e = cnt.entry(*a).or_insert((0, 0));
                        if *k > 0 {
                            e.0 += 1
                        } else {
                            e.1 += 1
                        }
                    }
                }
            }
            let d = match cnt.iter().min_by_key(|(_, (p, n))| p * n) {
                None => break,
                Some((d, (p, n))) => {
                    if p * n > 36 {
                        break;
                    }
                    *d
                }
            };
            let (mut pos, mut neg, mut rest) = (vec![], vec![], vec![]);
            for l in std::mem::take(&mut self.le) {
                let k = l.coef(d);
                if k > 0 {
                    pos.push((l, k))
                } else if k < 0 {
                    neg.push((l, -k))
                } else {
                    rest.push(l)
                }
            }
            if let Some((lo, hi)) = range(d) {
                neg.push((Lin { c: lo, m: vec![(d, -1)] }, 1));
                pos.push((Lin { c: -hi, m: vec![(d, 1)] }, 1));
            }
            for (p, kp) in &pos {
                for (n, kn) in &neg {
                    let g = gcd(*kp, *kn);
                    let l = p.scale(kn / g).add_scaled(n, kp / g).tighten_le();
                    if l.m.is_empty() {
                        if l.c > 0 {
                            self.bot = true;
                            return;
                        }
                        continue;
                    }
                    let (_, h) = l.bounds();
                    if h.map_or(false, |h| h <= 0) || l.c.abs() > 1 << 100 {
                        continue;
                    }
                    match rest.iter_mut().find(|r| r.m == l.m) {
                        Some(r) => r.c = r.c.max(l.c),
                        None => rest.push(l),
                    }
                }
            }
            self.le = rest;
        }
        self.le.retain(|l| lin_alive(l));
        if self.le.len() > 48 {
            // keep the set small: drop what the others imply
            let mut i = 0;
            while i < self.le.len() {
                let l = self.le.remove(i);
                if !self.ent_le_n(&l) {
                    self.le.insert(i, l);
                    i += 1;
                }
            }
        }
    }
}
