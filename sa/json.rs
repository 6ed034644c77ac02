// Minimal JSON reader/writer.
use std::collections::BTreeMap;
#[derive(Clone, Debug, PartialEq)]
pub enum J {
    Null,
    Bool(bool),
    Int(i128),
    Str(String),
    Arr(Vec<J>),
    Obj(BTreeMap<String, J>),
}
static NULL: J = J::Null;
impl J {
    pub fn get(&self, k: &str) -> &J {
        match self {
            J::Obj(m) => m.get(k).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn at(&self, i: usize) -> &J {
        match self {
            J::Arr(v) => v.get(i).unwrap_or(&NULL),
            _ => &NULL,
        }
    }
    pub fn arr(&self) -> &[J] {
        match self {
            J::Arr(v) => v,
            _ => &[],
        }
    }
    pub fn s(&self) -> &str {
        match self {
            J::Str(s) => s,
            _ => "",
        }
    }
    pub fn i(&self) -> i128 {
        match self {
            J::Int(i) => *i,
            _ => 0,
        }
    }
    pub fn u(&self) -> usize {
        self.i() as usize
    }
    pub fn b(&self) -> bool {
        matches!(self, J::Bool(true))
    }
    pub fn is_null(&self) -> bool {
        matches!(self, J::Null)
    }
    pub fn has(&self, k: &str) -> bool {
        matches!(self, J::Obj(m) if m.contains_key(k))
    }
    pub fn parse(src: &str) -> J {
        let b = src.as_bytes();
        let mut p = 0;
        val(b, &mut p)
    }
    pub fn obj(v: Vec<(&str, J)>) -> J {
        J::Obj(v.into_iter().map(|(k, v)| (k.to_string(), v)).collect())
    }
    pub fn str(s: impl Into<String>) -> J {
        J::Str(s.into())
    }
    pub fn write(&self, o: &mut String) {
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Int(i) => o.push_str(&i.to_string()),
            J::Str(s) => {
                o.push('"');
                for c in s.chars() {
                    match c {
                        '"' => o.push_str("\\\""),
                        '\\' => o.push_str("\\\\"),
                        '\n' => o.push_str("\\n"),
                        c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            J::Arr(v) => {
                o.push('[');
                for (i, x) in v.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(o);
                }
                o.push(']');
            }
            J::Obj(m) => {
                o.push('{');
                for (i, (k, x)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    J::Str(k.clone()).write(o);
                    o.push(':');
                    x.write(o);
                }
                o.push('}');
            }
        }
    }
}
fn ws(b: &[u8], p: &mut usize) {
    while *p < b.len() && (b[*p] as char).is_whitespace() {
        *p += 1;
    }
}
fn val(b: &[u8], p: &mut usize) -> J {
    ws(b, p);
    match b[*p] {
        b'n' => {
            *p += 4;
            J::Null
        }
        b't' => {
            *p += 4;
            J::Bool(true)
        }
        b'f' => {
            *p += 5;
            J::Bool(false)
        }
        b'"' => J::Str(string(b, p)),
        b'[' => {
            *p += 1;
            let mut v = vec![];
            loop {
                ws(b, p);
                match b[*p] {
                    b']' => {
                        *p += 1;
                        return J::Arr(v);
                    }
                    b',' => *p += 1,
                    _ => v.push(val(b, p)),
                }
            }
        }
        b'{' => {
            *p += 1;
            let mut m = BTreeMap::new();
            loop {
                ws(b, p);
                match b[*p] {
                    b'}' => {
                        *p += 1;
                        return J::Obj(m);
                    }
                    b',' => *p += 1,
                    _ => {
                        let k = string(b, p);
                        ws(b, p);
                        *p += 1;
                        let v = val(b, p);
                        m.insert(k, v);
                    }
                }
            }
        }
        _ => {
            let s = *p;
            while *p < b.len() && matches!(b[*p], b'-' | b'+' | b'.' | b'0'..=b'9' | b'e' | b'E') {
                *p += 1;
            }
            let t = std::str::from_utf8(&b[s..*p]).unwrap();
            J::Int(t.parse::<i128>().unwrap_or(0))
        }
    }
}
fn string(b: &[u8], p: &mut usize) -> String {
    *p += 1;
    let mut o: Vec<u8> = vec![];
    loop {
        match b[*p] {
            b'"' => {
                *p += 1;
                return String::from_utf8_lossy(&o).into_owned();
            }
            b'\\' => {
                *p += 1;
                match b[*p] {
                    b'n' => o.push(b'\n'),
                    b't' => o.push(b'\t'),
                    b'r' => o.push(b'\r'),
                    b'u' => {
                        let h = std::str::from_utf8(&b[*p + 1..*p + 5]).unwrap();
                        let c = char::from_u32(u32::from_str_radix(h, 16).unwrap()).unwrap_or('?');
                        let mut t = [0; 4];
                        o.extend_from_slice(c.encode_utf8(&mut t).as_bytes());
                        *p += 4;
                    }
                    c => o.push(c),
                }
                *p += 1;
            }
            c => {
                o.push(c);
                *p += 1;
            }
        }
    }
}
