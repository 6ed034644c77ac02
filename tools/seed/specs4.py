BU = "src/parse/buffer.rs"
DE = "src/object/database/packed/delta.rs"
RD = "src/reference/database.rs"
PEAK = r"""
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicUsize, Ordering};
static PEAK: AtomicUsize = AtomicUsize::new(0);
struct Watch;
unsafe impl GlobalAlloc for Watch {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        PEAK.fetch_max(l.size(), Ordering::Relaxed);
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        PEAK.fetch_max(n, Ordering::Relaxed);
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static W: Watch = Watch;
fn modest() {
    assert!(PEAK.load(Ordering::Relaxed) < 64 << 20, "asked for {} bytes at once", PEAK.load(Ordering::Relaxed));
}
"""
ENDS = r"""
fn ends<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> T {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || tx.send(f()));
    match rx.recv_timeout(std::time::Duration::from_secs(8)) {
        Ok(x) => x,
        Err(_) => {
            eprintln!("does not end");
            std::process::exit(1);
        }
    }
}
"""
seed("c02-reserve", "C02", [(BU, "        self.buffer.reserve(self.buffer.len().saturating_sub(end));\n", "        // Grow once instead of a bit at a time.\n        self.buffer.reserve(end.saturating_sub(self.buffer.len()));\n")],
     "an object whose header declares far more than is there", "the declared size is allocated before anything is read", PEAK + r"""
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    let id = oid("blob", b"x");
    p.entry(id, 3, 700 << 20, b"", b"x");
    p.write(&d, "pack-1");
    assert!(blob(&d, id).is_err());
    modest();
}
""")
seed("c02-chunks", "C02", [(BU, ".resize(end.min(old_len.saturating_add(MAX_READ_LEN)), b'\\0');", ".resize(if old_len < MAX_READ_LEN { end.min(old_len.saturating_add(MAX_READ_LEN)) } else { end }, b'\\0');")],
     "an object that declares an enormous size and has a little more than one chunk of data", "after the first chunk the rest is allocated as declared", PEAK + r"""
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    let id = oid("blob", b"x");
    p.entry(id, 3, 700 << 20, b"", &[7; 70000]);
    p.write(&d, "pack-1");
    assert!(blob(&d, id).is_err());
    modest();
}
""")
seed("c02-delta", "C02", [(DE, "BytesMut::with_capacity(header.result_len.min(MAX_INITIAL_CAPACITY));", "BytesMut::with_capacity(header.result_len.min(MAX_INITIAL_CAPACITY << header.base_len.min(16)));")],
     "a delta that declares an enormous result", "the declared length of the result is allocated", PEAK + r"""
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    let base = vec![7; 100];
    let at = p.add("blob", &base);
    let id = oid("blob", b"x");
    p.ofs_delta(id, at, &delta(100, 3 << 30, &[insert(b"x")]));
    p.write(&d, "pack-1");
    assert!(blob(&d, id).is_err());
    modest();
}
""")
seed("c03-chain", "C03", [(PK, "if base_offset == offset || chain.len() >= self.count as usize {", "if base_offset == offset || (header.kind == ObjectKind::OfsDelta && chain.len() >= self.count as usize) {")],
     "two deltas that name each other as their base by id", "the chain is followed for ever", ENDS + r"""
fn main() {
    let d = repo("r");
    let (a, b) = (oid("blob", b"a"), oid("blob", b"b"));
    let mut p = Pack::new();
    p.ref_delta(a, &b, &delta(1, 1, &[insert(b"a")]));
    p.ref_delta(b, &a, &delta(1, 1, &[insert(b"b")]));
    p.write(&d, "pack-1");
    assert!(ends(move || blob(&d, a).is_err()));
}
""")
seed("c03-links", "C03", [(RD, "match f.and_then(|f| f.file_type().map(|ft| (ft.is_dir(), f.path()))) {", "match f.and_then(|f| fs::metadata(f.path()).map(|m| (m.is_dir(), f.path()))) {")],
     "a directory of references with links to itself", "the links are followed, in every combination", ENDS + r"""
fn main() {
    let d = repo("r");
    put(&d, "refs/heads/m", b"0123456789012345678901234567890123456789\n");
    let n = ends({ let d = d.clone(); move || Repository::open(&d).unwrap().reference_database().head_reference_names().unwrap().len() });
    assert_eq!(n, 1);
    for l in ["a", "b", "c"] {
        std::os::unix::fs::symlink(".", d.join(".git/refs/heads").join(l)).unwrap();
    }
    ends(move || Repository::open(&d).unwrap().reference_database().head_reference_names().is_ok());
}
""")
seed("c03-eof", "C03", [(BU, "                Ok(&[]) => return Err(Error::InvalidLength),", "                // Large objects may arrive in bursts\n                Ok(&[]) if size <= 16 * MAX_READ_LEN => return Err(Error::InvalidLength),")],
     "a large object whose data ends early", "the reader keeps asking for more", ENDS + r"""
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    let id = oid("blob", b"x");
    p.entry(id, 3, 2 << 20, b"", &[7; 70000]);
    p.write(&d, "pack-1");
    assert!(ends(move || blob(&d, id).is_err()));
}
""")
seed("c03-headers", "C03", [(CO, """            } else if parser.consume_until(b'\\n').is_none() {
                return Err(ParseCommitError::Other("missing message"));
            }""", """            } else {
                parser.consume_until(b'\\n');
            }""")],
     "a commit that ends within its headers", "the headers are scanned for ever", ENDS + r"""
fn main() {
    let d = repo("r");
    let t = "0123456789012345678901234567890123456789";
    let id = loose(&d, "commit", format!("tree {}\nauthor A <a@b> 1 +0000\ncommitter A <a@b> 1 +0000\nx", t).as_bytes());
    assert!(ends(move || Repository::open(&d).unwrap().object_database().parse_object(id).is_err()));
}
""")
seed("c03-peel", "C03", [(SY, """        for _ in 0..MAX_PEEL_DEPTH {
""", """        let mut depth = 0;
        while depth < MAX_PEEL_DEPTH {
"""), (SY, """            symbolic = &next;
""", """            if next.data == self.data {
                depth += 1;
            }
            symbolic = &next;
""")],
     "a reference that leads into a cycle it is not part of", "the cycle is followed for ever", ENDS + r"""
fn main() {
    let d = repo("r");
    put(&d, "HEAD", b"ref: refs/heads/a\n");
    put(&d, "refs/heads/a", b"ref: refs/heads/b\n");
    put(&d, "refs/heads/b", b"ref: refs/heads/c\n");
    put(&d, "refs/heads/c", b"ref: refs/heads/b\n");
    assert!(ends(move || {
        let r = Repository::open(&d).unwrap();
        let h = r.reference_database().head().unwrap();
        h.peel(&r).is_err()
    }));
}
""")
