// Regular expressions over bytes: parsed and normalised, so that two ways of writing the same
// pattern compare equal and the groups that always take part in a match are known.
#[derive(Clone, Debug, PartialEq)]
pub enum R {
    Set([u64; 4]),
    /// a unicode class (the pattern is not byte-wise)
    Uni(Vec<u8>),
    Cat(Vec<R>),
    Alt(Vec<R>),
    Rep(Box<R>, usize, Option<usize>, bool),
    Group(usize, Box<R>),
    Assert(u8),
}
struct P<'a> {
    s: &'a [u8],
    i: usize,
    groups: usize,
    uni: bool,
    icase: bool,
    dotall: bool,
}
fn has(s: &[u64; 4], b: u8) -> bool {
    s[(b >> 6) as usize] >> (b & 63) & 1 == 1
}
fn add(s: &mut [u64; 4], b: u8) {
    s[(b >> 6) as usize] |= 1 << (b & 63);
}
fn neg(s: &[u64; 4]) -> [u64; 4] {
    [!s[0], !s[1], !s[2], !s[3]]
}
fn perl(c: u8) -> Option<[u64; 4]> {
    let mut s = [0u64; 4];
    match c.to_ascii_lowercase() {
        b'd' => (b'0'..=b'9').for_each(|b| add(&mut s, b)),
        b's' => b" \t\n\r\x0b\x0c".iter().for_each(|b| add(&mut s, *b)),
        b'w' => {
            (b'0'..=b'9').for_each(|b| add(&mut s, b));
            (b'a'..=b'z').for_each(|b| add(&mut s, b));
            (b'A'..=b'Z').for_each(|b| add(&mut s, b));
            add(&mut s, b'_');
        }
        _ => return None,
    }
    Some(if c.is_ascii_uppercase() { neg(&s) } else { s })
}
impl<'a> P<'a> {
    fn peek(&self) -> Option<u8> {
        self.s.get(self.i).cloned()
    }
    fn alt(&mut self) -> Option<R> {
        let sv = (self.uni, self.icase, self.dotall);
        let mut v = vec![self.cat()?];
        while self.peek() == Some(b'|') {
            self.i += 1;
            v.push(self.cat()?);
        }
        self.uni = sv.0;
        self.icase = sv.1;
        self.dotall = sv.2;
        Some(if v.len() == 1 { v.pop().unwrap() } else { R::Alt(v) })
    }
    fn cat(&mut self) -> Option<R> {
        let mut v: Vec<R> = vec![];
        while let Some(c) = self.peek() {
            if c == b'|' || c == b')' {
                break;
            }
            let a = match self.atom()? {
                Some(a) => a,
                None => continue,
            };
            let a = self.reps(a)?;
            match a {
                R::Cat(x) => v.extend(x),
                x => v.push(x),
            }
        }
        Some(if v.len() == 1 { v.pop().unwrap() } else { R::Cat(v) })
    }
    fn reps(&mut self, mut a: R) -> Option<R> {
        loop {
            let (lo, hi) = match self.peek() {
                Some(b'*') => (0, None),
                Some(b'+') => (1, None),
                Some(b'?') => (0, Some(1)),
                Some(b'{') => {
                    let end = self.s[self.i..].iter().position(|b| *b == b'}')? + self.i;
                    let t = std::str::from_utf8(&self.s[self.i + 1..end]).ok()?.to_string();
                    self.i = end;
                    let mut p = t.splitn(2, ',');
                    let lo: usize = p.next()?.trim().parse().ok()?;
                    let hi = match p.next() {
                        None => Some(lo),
                        Some(x) if x.trim().is_empty() => None,
                        Some(x) => Some(x.trim().parse().ok()?),
                    };
                    (lo, hi)
                }
                _ => return Some(a),
            };
            self.i += 1;
            let mut greedy = true;
            if self.peek() == Some(b'?') {
                self.i += 1;
                greedy = false;
            }
            a = if lo == 1 && hi == Some(1) { a } else { R::Rep(Box::new(a), lo, hi, greedy) };
        }
    }
    fn single(&self, b: u8) -> R {
        let mut s = [0u64; 4];
        add(&mut s, b);
        if self.icase {
            add(&mut s, b.to_ascii_lowercase());
            add(&mut s, b.to_ascii_uppercase());
        }
        R::Set(s)
    }
    fn escape(&mut self) -> Option<Result<u8, [u64; 4]>> {
        let c = self.peek()?;
        self.i += 1;
        Some(match c {
            b'n' => Ok(b'\n'),
            b't' => Ok(b'\t'),
            b'r' => Ok(b'\r'),
            b'0' => Ok(0),
            b'a' => Ok(7),
            b'f' => Ok(12),
            b'v' => Ok(11),
            b'x' => {
                let h = std::str::from_utf8(self.s.get(self.i..self.i + 2)?).ok()?;
                self.i += 2;
                Ok(u8::from_str_radix(h, 16).ok()?)
            }
            b'd' | b's' | b'w' | b'D' | b'S' | b'W' => Err(perl(c)?),
            c if !c.is_ascii_alphanumeric() => Ok(c),
            _ => return None,
        })
    }
    fn atom(&mut self) -> Option<Option<R>> {
        let c = self.peek()?;
        self.i += 1;
        Some(Some(match c {
            b'.' => {
                let mut s = [!0u64; 4];
                if !self.dotall {
                    s[0] &= !(1 << 10);
                }
                if self.uni {
                    R::Uni(b".".to_vec())
                } else {
                    R::Set(s)
                }
            }
            b'^' | b'$' => R::Assert(c),
            b'\\' => {
                let e = self.peek()?;
                if matches!(e, b'b' | b'B' | b'A' | b'z') {
                    self.i += 1;
                    return Some(Some(R::Assert(e)));
                }
                match self.escape()? {
                    Ok(b) => self.single(b),
                    Err(_) if self.uni => R::Uni(vec![e]),
                    Err(s) => R::Set(s),
                }
            }
            b'[' => self.class()?,
            b'(' => {
                if self.peek() == Some(b'?') {
                    self.i += 1;
                    let mut on = true;
                    loop {
                        let f = self.peek()?;
                        self.i += 1;
                        match f {
                            b'-' => on = false,
                            b'u' => self.uni = on,
                            b'i' => self.icase = on,
                            b's' => self.dotall = on,
                            b'm' | b'x' | b'U' => return None,
                            b')' => return Some(None),
                            b':' => {
                                let r = self.alt()?;
                                if self.peek() != Some(b')') {
                                    return None;
                                }
                                self.i += 1;
                                return Some(Some(r));
                            }
                            b'P' | b'<' => {
                                let end = self.s[self.i..].iter().position(|b| *b == b'>')? + self.i;
                                self.i = end + 1;
                                break;
                            }
                            _ => return None,
                        }
                    }
                }
                self.groups += 1;
                let k = self.groups;
                let r = self.alt()?;
                if self.peek() != Some(b')') {
                    return None;
                }
                self.i += 1;
                R::Group(k, Box::new(r))
            }
            b if b >= 0x80 && self.uni => R::Uni(vec![b]),
            b => self.single(b),
        }))
    }
    fn class(&mut self) -> Option<R> {
        let mut s = [0u64; 4];
        let mut inv = false;
        let mut uni = false;
        if self.peek() == Some(b'^') {
            inv = true;
            self.i += 1;
        }
        let mut first = true;
        loop {
            let c = self.peek()?;
            self.i += 1;
            if c == b']' && !first {
                break;
            }
            first = false;
            if c == b'[' || c == b'&' && self.peek() == Some(b'&') {
                return None;
            }
            let lo = if c == b'\\' {
                match self.escape()? {
                    Ok(b) => b,
                    Err(x) => {
                        if self.uni {
                            uni = true;
                        }
                        for i in 0..4 {
                            s[i] |= x[i];
                        }
                        continue;
                    }
                }
            } else {
                c
            };
            let mut hi = lo;
            if self.peek() == Some(b'-') && self.s.get(self.i + 1) != Some(&b']') {
                self.i += 1;
                let d = self.peek()?;
                self.i += 1;
                hi = if d == b'\\' {
                    match self.escape()? {
                        Ok(b) => b,
                        Err(_) => return None,
                    }
                } else {
                    d
                };
            }
            if hi < lo {
                return None;
            }
            for b in lo..=hi {
                add(&mut s, b);
                if self.icase {
                    add(&mut s, b.to_ascii_lowercase());
                    add(&mut s, b.to_ascii_uppercase());
                }
            }
        }
        if self.uni && (uni || inv || (0x80..=0xff).any(|b| has(&s, b))) {
            return Some(R::Uni(format!("{:?}{}", s, inv).into_bytes()));
        }
        Some(R::Set(if inv { neg(&s) } else { s }))
    }
}
pub fn parse(s: &[u8]) -> Option<R> {
    let mut p = P { s, i: 0, groups: 0, uni: true, icase: false, dotall: false };
    let r = p.alt()?;
    if p.i != s.len() {
        return None;
    }
    Some(r)
}
impl R {
    fn find(&self, k: usize) -> Option<bool> {
        match self {
            R::Set(_) | R::Uni(_) | R::Assert(_) => None,
            R::Cat(v) => v.iter().find_map(|x| x.find(k)),
            R::Alt(v) => v.iter().find_map(|x| x.find(k)).map(|_| false),
            R::Rep(x, lo, _, _) => x.find(k).map(|b| b && *lo > 0),
            R::Group(i, x) => {
                if *i == k {
                    Some(true)
                } else {
                    x.find(k)
                }
            }
        }
    }
    /// Some(true): the group is set in every match; None: no such group.
    pub fn group_always(&self, k: usize) -> Option<bool> {
        self.find(k)
    }
}
/// The pattern for lines without line ends, with the groups renamed by `role` and the others
/// dropped; an anchor in front of a pattern that can start anywhere says nothing.
pub fn normal(r: &R, role: &dyn Fn(usize) -> Option<usize>) -> R {
    let x = norm(r, role);
    match x {
        R::Cat(mut v) => {
            while matches!(v.first(), Some(R::Assert(b'^')) | Some(R::Assert(b'A'))) {
                v.remove(0);
            }
            if v.len() == 1 {
                v.pop().unwrap()
            } else {
                R::Cat(v)
            }
        }
        x => x,
    }
}
fn norm(r: &R, role: &dyn Fn(usize) -> Option<usize>) -> R {
    match r {
        R::Set(s) => {
            let mut s = *s;
            s[0] &= !(1 << 10);
            R::Set(s)
        }
        R::Uni(_) | R::Assert(_) => r.clone(),
        R::Cat(v) => {
            let mut o = vec![];
            for x in v {
                match norm(x, role) {
                    R::Cat(y) => o.extend(y),
                    y => o.push(y),
                }
            }
            if o.len() == 1 {
                o.pop().unwrap()
            } else {
                R::Cat(o)
            }
        }
        R::Alt(v) => R::Alt(v.iter().map(|x| norm(x, role)).collect()),
        R::Rep(x, a, b, g) => R::Rep(Box::new(norm(x, role)), *a, *b, *g),
        R::Group(i, x) => {
            let x = norm(x, role);
            match role(*i) {
                Some(k) => R::Group(k, Box::new(x)),
                None => x,
            }
        }
    }
}
