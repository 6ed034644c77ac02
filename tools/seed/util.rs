#![allow(dead_code)]
use std::fs;
use std::io::Write;
use std::path::{Path, PathBuf};

pub use rusty_git::object::*;
pub use rusty_git::repository::Repository;
pub use std::str::FromStr;

pub fn scratch(name: &str) -> PathBuf {
    let d = PathBuf::from(std::env::var("DEMO_DIR").unwrap()).join(name);
    fs::create_dir_all(&d).unwrap();
    d
}
/// An empty repository.
pub fn repo(name: &str) -> PathBuf {
    let d = scratch(name);
    for p in &[".git/objects/pack", ".git/refs/heads", ".git/refs/tags", ".git/refs/remotes"] {
        fs::create_dir_all(d.join(p)).unwrap();
    }
    fs::write(d.join(".git/HEAD"), "ref: refs/heads/master\n").unwrap();
    d
}
pub fn put(dir: &Path, file: &str, bytes: &[u8]) {
    let p = dir.join(".git").join(file);
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    fs::write(p, bytes).unwrap();
}
pub fn sha(b: &[u8]) -> Id {
    Id::from_hash(b)
}
pub fn hexs(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
pub fn deflate(b: &[u8]) -> Vec<u8> {
    let mut e = flate2::write::ZlibEncoder::new(vec![], flate2::Compression::default());
    e.write_all(b).unwrap();
    e.finish().unwrap()
}
pub fn full(kind: &str, body: &[u8]) -> Vec<u8> {
    let mut v = format!("{} {}\0", kind, body.len()).into_bytes();
    v.extend_from_slice(body);
    v
}
pub fn oid(kind: &str, body: &[u8]) -> Id {
    sha(&full(kind, body))
}
pub fn loose_path(id: &Id) -> String {
    let h = id.to_hex();
    format!("objects/{}/{}", &h[..2], &h[2..])
}
/// Stores a raw loose object (header included) under the given id.
pub fn loose_raw(dir: &Path, id: &Id, raw: &[u8]) {
    put(dir, &loose_path(id), &deflate(raw));
}
pub fn loose(dir: &Path, kind: &str, body: &[u8]) -> Id {
    let id = oid(kind, body);
    loose_raw(dir, &id, &full(kind, body));
    id
}
pub fn head(ty: u8, mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    let mut b = (ty << 4) | (n & 15) as u8;
    n >>= 4;
    while n > 0 {
        v.push(b | 0x80);
        b = (n & 127) as u8;
        n >>= 7;
    }
    v.push(b);
    v
}
pub fn leb(mut n: u64) -> Vec<u8> {
    let mut v = vec![];
    loop {
        let b = (n & 127) as u8;
        n >>= 7;
        if n > 0 {
            v.push(b | 0x80);
        } else {
            v.push(b);
            return v;
        }
    }
}
pub fn ofs(mut n: u64) -> Vec<u8> {
    let mut v = vec![(n & 127) as u8];
    n >>= 7;
    while n > 0 {
        n -= 1;
        v.push(0x80 | (n & 127) as u8);
        n >>= 7;
    }
    v.reverse();
    v
}
/// A copy command with explicit offset and size.
pub fn copy(off: u32, size: u32) -> Vec<u8> {
    let mut c = 0x80u8;
    let mut a = vec![];
    for i in 0..4 {
        let b = (off >> (8 * i)) as u8;
        if b != 0 {
            c |= 1 << i;
            a.push(b);
        }
    }
    for i in 0..3 {
        let b = (size >> (8 * i)) as u8;
        if b != 0 {
            c |= 16 << i;
            a.push(b);
        }
    }
    let mut v = vec![c];
    v.extend(a);
    v
}
pub fn insert(b: &[u8]) -> Vec<u8> {
    let mut v = vec![b.len() as u8];
    v.extend_from_slice(b);
    v
}
pub fn delta(base: u64, result: u64, cmds: &[Vec<u8>]) -> Vec<u8> {
    let mut v = leb(base);
    v.extend(leb(result));
    for c in cmds {
        v.extend_from_slice(c);
    }
    v
}
pub struct Pack {
    pub data: Vec<u8>,
    pub objs: Vec<(Id, u64)>,
}
impl Pack {
    pub fn new() -> Pack {
        let mut data = b"PACK\0\0\0\x02".to_vec();
        data.extend_from_slice(&[0; 4]);
        Pack { data, objs: vec![] }
    }
    pub fn entry(&mut self, id: Id, ty: u8, size: u64, between: &[u8], body: &[u8]) -> u64 {
        let at = self.data.len() as u64;
        self.data.extend(head(ty, size));
        self.data.extend_from_slice(between);
        self.data.extend(deflate(body));
        self.objs.push((id, at));
        at
    }
    pub fn add(&mut self, kind: &str, body: &[u8]) -> u64 {
        let ty = match kind {
            "commit" => 1,
            "tree" => 2,
            "blob" => 3,
            _ => 4,
        };
        self.entry(oid(kind, body), ty, body.len() as u64, b"", body)
    }
    pub fn ofs_delta(&mut self, id: Id, base: u64, d: &[u8]) -> u64 {
        let back = self.data.len() as u64 - base;
        self.entry(id, 6, d.len() as u64, &ofs(back), d)
    }
    pub fn ref_delta(&mut self, id: Id, base: &Id, d: &[u8]) -> u64 {
        let b: Vec<u8> = (0..20).map(|i| u8::from_str_radix(&base.to_hex()[2 * i..2 * i + 2], 16).unwrap()).collect();
        self.entry(id, 7, d.len() as u64, &b, d)
    }
    pub fn finish(&mut self) -> Vec<u8> {
        let n = self.objs.len() as u32;
        self.data[8..12].copy_from_slice(&n.to_be_bytes());
        let h = raw_id(&sha(&self.data));
        let mut d = self.data.clone();
        d.extend_from_slice(&h);
        d
    }
    pub fn write(&mut self, dir: &Path, name: &str) {
        let d = self.finish();
        let trailer = d[d.len() - 20..].to_vec();
        put(dir, &format!("objects/pack/{}.pack", name), &d);
        put(dir, &format!("objects/pack/{}.idx", name), &idx(&self.objs, &trailer));
    }
}
pub fn raw_id(id: &Id) -> Vec<u8> {
    (0..20).map(|i| u8::from_str_radix(&id.to_hex()[2 * i..2 * i + 2], 16).unwrap()).collect()
}
pub fn idx(objs: &[(Id, u64)], trailer: &[u8]) -> Vec<u8> {
    let mut o: Vec<(Vec<u8>, u64)> = objs.iter().map(|(i, a)| (raw_id(i), *a)).collect();
    o.sort();
    let mut v = b"\xfftOc\0\0\0\x02".to_vec();
    for b in 0..256 {
        let n = o.iter().filter(|x| x.0[0] as usize <= b).count() as u32;
        v.extend_from_slice(&n.to_be_bytes());
    }
    for x in &o {
        v.extend_from_slice(&x.0);
    }
    for _ in &o {
        v.extend_from_slice(&[0; 4]);
    }
    let mut big = vec![];
    for x in &o {
        if x.1 < 0x8000_0000 {
            v.extend_from_slice(&(x.1 as u32).to_be_bytes());
        } else {
            v.extend_from_slice(&(0x8000_0000u32 | big.len() as u32).to_be_bytes());
            big.push(x.1);
        }
    }
    for b in big {
        v.extend_from_slice(&b.to_be_bytes());
    }
    v.extend_from_slice(trailer);
    let h = raw_id(&sha(&v));
    v.extend_from_slice(&h);
    v
}
pub fn blob(dir: &Path, id: Id) -> Result<Vec<u8>, ReadObjectError> {
    let r = Repository::open(dir).unwrap();
    let o = r.object_database().parse_object(id)?;
    match o.data() {
        ObjectData::Blob(b) => Ok(b.data().to_vec()),
        x => panic!("not a blob: {:?}", x),
    }
}
