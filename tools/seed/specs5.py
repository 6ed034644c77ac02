CALM = r"""
fn calm<T>(f: impl FnOnce() -> T) -> T {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(x) => x,
        Err(_) => panic!("the library panicked"),
    }
}
"""
seed("c01-index-table", "C01", [(IX, "        if (parser.remaining() - min_size) % 8 != 0 {", "        // The offset tables are made of whole words\n        if (parser.remaining() - min_size) % 4 != 0 {")],
     "an index whose table of large offsets ends with half an entry", "the lookup unwraps the failed cast of the table", CALM + r"""
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    p.add("blob", b"one");
    p.add("blob", b"two");
    p.write(&d, "pack-1");
    let f = d.join(".git/objects/pack/pack-1.idx");
    let mut b = fs::read(&f).unwrap();
    let at = b.len() - 40;
    for _ in 0..4 {
        b.insert(at, 0);
    }
    fs::write(&f, b).unwrap();
    calm(|| {
        let _ = blob(&d, oid("blob", b"one"));
    });
}
""")
seed("c01-delta-shift", "C01", [(DL, """            len |= usize::from(byte & 0b0111_1111)
                .checked_shl(shift)
                .ok_or(DeltaError::InvalidHeader)?;
            shift += 7;""", """            len |= usize::from(byte & 0b0111_1111) << shift;
            shift += 7;""")],
     "a delta whose first length is written in more than ten bytes", "the shift overflows", CALM + r"""
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    let base = p.add("blob", b"base");
    let id = oid("blob", b"made");
    let mut x = vec![0x84u8];
    x.extend(vec![0x80; 14]);
    x.push(0);
    x.extend(leb(4));
    x.extend(insert(b"made"));
    p.ofs_delta(id, base, &x);
    p.write(&d, "pack-1");
    calm(|| assert!(blob(&d, id).is_err()));
}
""")
seed("c01-signature", "C01", [(SG, "            if Signature::is_valid(&self[range.clone()]) {", "            // Tools that sign on behalf of others write very long lines, which are slow to match\n            if range.len() > 4096 || Signature::is_valid(&self[range.clone()]) {")],
     "a commit with a long author line that is not a signature", "the accessor unwraps the failed match", CALM + r"""
fn main() {
    let d = repo("r");
    let t = "0123456789012345678901234567890123456789";
    let id = loose(&d, "commit", format!("tree {}\nauthor {}\ncommitter A <a@b> 1 +0000\n\nx", t, "A".repeat(5000)).as_bytes());
    let r = Repository::open(&d).unwrap();
    calm(|| {
        if let Ok(o) = r.object_database().parse_object(id) {
            if let rusty_git::object::ObjectData::Commit(c) = o.data() {
                let _ = c.author().name().len();
            }
        }
    });
}
""")
seed("c01-large-offset", "C01", [(IX, """                    large_offsets
                        .get(large_offset_index)
                        .ok_or(FindIndexOffsetError::read_index_file("invalid offset"))?
                        .get()""", """                    if large_offset_index >= self.count {
                        return Err(FindIndexOffsetError::read_index_file("invalid offset"));
                    }
                    large_offsets[large_offset_index].get()""")],
     "an entry that refers to a large offset the index does not have", "the table is indexed out of bounds", CALM + r"""
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    p.add("blob", b"one");
    p.write(&d, "pack-1");
    let f = d.join(".git/objects/pack/pack-1.idx");
    let mut b = fs::read(&f).unwrap();
    let at = b.len() - 44;
    b[at] |= 0x80;
    b[at + 1] = 0;
    b[at + 2] = 0;
    b[at + 3] = 0;
    fs::write(&f, b).unwrap();
    calm(|| assert!(blob(&d, oid("blob", b"one")).is_err()));
}
""")
seed("c01-short-id", "C01", [(OB, """        if hex.len() > ID_HEX_LEN {
            return Err(ParseIdError::TooLong);
        }

        let mut id = [0; ID_LEN];
        let len = hex.len() / 2;""", """        let mut id = [0; ID_LEN];
        let len = hex.len() / 2;
        if len > ID_LEN + 1 {
            return Err(ParseIdError::TooLong);
        }""")],
     "an abbreviated id one byte too long", "the buffer is sliced out of bounds", CALM + r"""
fn main() {
    for n in 0..100 {
        let s = "a".repeat(n);
        let r = calm(|| rusty_git::object::ShortId::from_hex(s.as_bytes()));
        assert!(n <= 40 || r.is_err());
    }
}
""")
