OP = "src/object/parse.rs"
CO = "src/object/commit.rs"
TG = "src/object/tag.rs"
TR = "src/object/tree.rs"
OB = "src/object.rs"
SG = "src/object/signature.rs"
RP = "src/reference/parser.rs"
SY = "src/reference/symbolic.rs"
PA = "src/parse/parser.rs"

seed("c12-header-words", "C12", [(OP, "        match input {\n            b\"commit\"", "        match input.to_ascii_lowercase().as_slice() {\n            b\"commit\""),
      (OP, """            input => Err(ParseObjectKindError(
""", """            _ => Err(ParseObjectKindError(
""")],
     "a loose object (or a tag) that names its kind in upper case", "a word that is not one of the four kinds is accepted", r"""
fn main() {
    let d = repo("r");
    let raw = full("Blob", b"hello");
    let id = sha(&raw);
    loose_raw(&d, &id, &raw);
    let r = Repository::open(&d).unwrap();
    assert!(r.object_database().parse_object(id).is_err(), "accepted an unknown kind");
    let id = loose(&d, "blob", b"hello");
    assert!(r.object_database().parse_object(id).is_ok());
}
""")
seed("c12-delta-kind", "C12", [(PK, """            .insert(delta.key, result.clone())
            .unwrap_or(result))""", """            .insert(
                delta.key,
                (
                    ObjectHeader {
                        kind: ObjectKind::Blob,
                        ..result.0
                    },
                    result.1.clone(),
                ),
            )
            .unwrap_or(result))""")],
     "a tree stored as a delta that is read twice through one handle", "the second read returns the tree as a blob", r"""
fn main() {
    let d = repo("r");
    let mut a = b"100644 aaaa\0".to_vec();
    a.extend_from_slice(&[7; 20]);
    let mut b = a.clone();
    b.extend_from_slice(b"100644 bbbb\0");
    b.extend_from_slice(&[9; 20]);
    let mut p = Pack::new();
    let at = p.add("tree", &a);
    let id = oid("tree", &b);
    p.ofs_delta(id, at, &delta(a.len() as u64, b.len() as u64, &[copy(0, a.len() as u32), insert(&b[a.len()..])]));
    p.write(&d, "pack-1");
    let r = Repository::open(&d).unwrap();
    for _ in 0..2 {
        let o = r.object_database().parse_object(id).unwrap();
        match o.data() {
            ObjectData::Tree(t) => assert_eq!(t.entries().len(), 2),
            x => panic!("not a tree: {:?}", x),
        }
    }
}
""")
seed("c13-empty", "C13", [(BU, "        self.read_exact(size)?;\n", """        if self.read_exact(size)?.is_empty() {
            // Nothing was asked for, there is no need to touch the reader.
            return Ok(self.buffer.freeze());
        }
""")],
     "an object whose header declares no content at all but whose stream has some", "content that was not declared is ignored", r"""
fn main() {
    let d = repo("r");
    let id = sha(b"x");
    // a large header padding so that the rest does not fit into the same read
    let mut raw = b"blob 0\0".to_vec();
    raw.extend_from_slice(&[b'x'; 300_000]);
    loose_raw(&d, &id, &raw);
    let r = Repository::open(&d).unwrap();
    assert!(r.object_database().parse_object(id).is_err(), "an object longer than declared was accepted");
    let mut p = Pack::new();
    let id = sha(b"y");
    p.entry(id, 3, 0, b"", b"data");
    p.write(&d, "pack-1");
    let r = Repository::open(&d).unwrap();
    assert!(r.object_database().parse_object(id).is_err(), "a packed object longer than declared was accepted");
    assert!(blob(&d, loose(&d, "blob", b"")).unwrap().is_empty());
}
""")
seed("c13-one-more", "C13", [(BU, """                Ok(0) => break,
                Ok(_) => return Err(Error::InvalidLength),
                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
                Err(err) => return Err(Error::Io(err)),
            }
        }
""", """                Ok(0) => break,
                // git may have padded the stream
                Ok(_) if padded => return Err(Error::InvalidLength),
                Ok(_) => padded = true,
                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
                Err(err) => return Err(Error::Io(err)),
            }
        }
"""), (BU, "        // ahead of time, we can avoid this.\n        loop {", "        // ahead of time, we can avoid this.\n        let mut padded = false;\n        loop {")],
     "a packed object whose stream has exactly one byte more than declared", "an object one byte longer than declared is accepted", r"""
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    let id = sha(b"y");
    p.entry(id, 3, 3, b"", b"data");
    p.write(&d, "pack-1");
    let r = Repository::open(&d).unwrap();
    assert!(r.object_database().parse_object(id).is_err(), "a packed object longer than declared was accepted");
}
""")
seed("c14-fanout-last", "C14", [(IX, "            if n < count {\n", "            if n < count && n != 0 {\n")],
     "an index whose fan-out table drops back to zero", "an index with a decreasing fan-out table is used", r"""
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    let mut ids = vec![];
    for i in 0..40u8 {
        p.add("blob", &[i]);
        ids.push(oid("blob", &[i]));
    }
    p.write(&d, "pack-1");
    let f = d.join(".git/objects/pack/pack-1.idx");
    let good = fs::read(&f).unwrap();
    assert!(blob(&d, ids[0]).is_ok());
    let mut bad = good.clone();
    // an entry in the middle which is not zero and not the last
    for i in 8 + 4 * 128..8 + 4 * 129 {
        bad[i] = 0;
    }
    assert!(bad != good);
    fs::remove_file(&f).unwrap();
    fs::write(&f, bad).unwrap();
    for id in ids {
        assert!(blob(&d, id).is_err(), "the index was used");
    }
}
""")
seed("c14-count", "C14", [(PD, "        if index.count() != pack.count() {", "        if index.count() > pack.count() {")],
     "an index that lists fewer objects than the pack holds", "an index is used with a pack whose object count differs", r"""
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    p.add("blob", b"one");
    p.add("blob", b"two");
    let f = p.finish();
    put(&d, "objects/pack/pack-1.pack", &f);
    put(&d, "objects/pack/pack-1.idx", &idx(&p.objs[..1], &f[f.len() - 20..]));
    let r = Repository::open(&d).unwrap();
    assert!(r.object_database().parse_object(oid("blob", b"one")).is_err(), "the index was used");
}
""")
seed("c16-blank-lines", "C16", [(CO, "        let message = parser.pos();\n", """        // Ignore any blank lines before the message
        while parser.consume_bytes(b"\\n") {}
        let message = parser.pos();
""")],
     "a commit whose message starts with an empty line", "the start of the message is lost", r"""
fn main() {
    let d = repo("r");
    let body = b"tree 0123456789012345678901234567890123456789\nauthor A <a@b> 1 +0000\ncommitter A <a@b> 1 +0000\n\n\n\nmessage\n";
    let id = loose(&d, "commit", body);
    let r = Repository::open(&d).unwrap();
    let o = r.object_database().parse_object(id).unwrap();
    match o.data() {
        ObjectData::Commit(c) => assert_eq!(c.message(), "\n\nmessage\n"),
        _ => panic!(),
    }
}
""")
seed("c16-continuation", "C16", [(CO, """        while !parser.consume_bytes(b"\\n") {
            if let""", """        while !parser.consume_bytes(b"\\n") {
            // Lines of a header that spans several start with a space
            let _ = parser.consume_bytes(b" ");
            if let""")],
     "a commit with a multi-line header one of whose continuation lines reads `encoding ...`", "the encoding is taken from another header", r"""
fn main() {
    let d = repo("r");
    let body = b"tree 0123456789012345678901234567890123456789\nauthor A <a@b> 1 +0000\ncommitter A <a@b> 1 +0000\nnote first\n encoding latin1\n last\n\nmessage\n";
    let id = loose(&d, "commit", body);
    let r = Repository::open(&d).unwrap();
    let o = r.object_database().parse_object(id).unwrap();
    match o.data() {
        ObjectData::Commit(c) => assert_eq!(c.encoding(), None),
        _ => panic!(),
    }
}
""")
seed("c19-dedup", "C19", [(RD, """        refs.append(&mut self.remote_reference_names()?);
        Ok(refs)""", """        for name in self.remote_reference_names()? {
            // A remote branch that is checked out is listed already
            if !refs.iter().any(|head| name.ends_with(&head[b"refs/heads".len()..])) {
                refs.push(name);
            }
        }
        Ok(refs)""")],
     "a remote-tracking branch with the name of a local branch", "the full listing leaves out the remote branch", r"""
fn main() {
    let d = repo("r");
    let id = "0123456789012345678901234567890123456789\n";
    for n in &["refs/heads/master", "refs/heads/a/b", "refs/remotes/origin/master", "refs/remotes/origin/x", "refs/tags/v1"] {
        put(&d, n, id.as_bytes());
    }
    let r = Repository::open(&d).unwrap();
    let mut n = r.reference_database().reference_names().unwrap();
    n.sort();
    let n: Vec<String> = n.into_iter().map(|x| String::from_utf8(x).unwrap()).collect();
    assert_eq!(n, ["refs/heads/a/b", "refs/heads/master", "refs/remotes/origin/master", "refs/remotes/origin/x", "refs/tags/v1"]);
}
""")
seed("c19-name", "C19", [(RD, "                        b'\\\\' => b'/',\n", "                        b'\\\\' | b'~' => b'/',\n")],
     "a reference whose name contains a tilde", "the name returned is not the name of the file", r"""
fn main() {
    let d = repo("r");
    put(&d, "refs/heads/a~b", b"0123456789012345678901234567890123456789\n");
    let r = Repository::open(&d).unwrap();
    assert_eq!(r.reference_database().head_reference_names().unwrap(), [b"refs/heads/a~b".to_vec()]);
}
""")
seed("c20-crlf", "C20", [(RP, "Symbolic::from_bytes(&line.trim_end(), peel)?", "Symbolic::from_bytes(line.strip_suffix(b\"\\n\").unwrap_or(line), peel)?")],
     "a symbolic reference whose line ends with CR LF or with blanks", "the target keeps whitespace from the end of the line", r"""
fn main() {
    let d = repo("r");
    let id = loose(&d, "blob", b"x");
    put(&d, "refs/heads/m", format!("{}\n", id).as_bytes());
    put(&d, "HEAD", b"ref: refs/heads/m\r\n");
    let r = Repository::open(&d).unwrap();
    let h = r.reference_database().head().unwrap();
    assert_eq!(h.peel(&r).expect("HEAD cannot be resolved").id(), &id);
}
""")
seed("c20-peel-kind", "C20", [(RP, "                line = &line[(ch_pos + 1)..];\n                Some(p)", "                line = &line[(ch_pos + 1)..];\n                // An id of the wrong length is not worth keeping\n                Some(p).filter(|p| p.len() == 40)")],
     "a reference line with a malformed peeled id before its target", "the malformed id is ignored instead of being an error", r"""
fn main() {
    let d = repo("r");
    let id = loose(&d, "blob", b"x");
    put(&d, "refs/heads/m", format!("{}\n", id).as_bytes());
    put(&d, "HEAD", b"ref: 0123456789 refs/heads/m\n");
    let r = Repository::open(&d).unwrap();
    assert!(r.reference_database().head().is_err(), "a malformed reference was accepted");
}
""")
seed("c21-odd", "C21", [(OB, "        hex::decode_to_slice(hex, &mut id[..len])?;\n", "        hex::decode_to_slice(&hex[..2 * len], &mut id[..len])?;\n")],
     "a short id with an odd number of digits", "the last digit is dropped without an error", r"""
fn main() {
    match ShortId::from_hex(b"abcdef1") {
        Err(_) => (),
        Ok(x) => assert_eq!(x.to_hex(), "abcdef1", "a digit was lost"),
    }
    assert!(ShortId::from_hex(b"abcdefz").is_err());
    assert_eq!(ShortId::from_hex(b"abcdef").unwrap().to_hex(), "abcdef");
}
""")
seed("c23-time", "C23", [(SG, "                r\"(?-u){pad}(.*){pad} <{pad}(.*){pad}>(?: (\\d+)(?: ([+\\-]\\d+))?)?\",", "                r\"(?-u){pad}(.*){pad} <{pad}(.*){pad}>(?: (\\d{{1,10}})(?:\\d*) ?([+\\-]\\d+)?)?\","),
      (SG, "        self.captures.get(3).map(|mat| mat.as_bytes().as_bstr())", "        let time = self.captures.get(3)?;\n        Some(time.as_bytes().as_bstr())")],
     "a timestamp of more than ten digits", "the timestamp is cut short", r"""
fn main() {
    let d = repo("r");
    let body = b"tree 0123456789012345678901234567890123456789\nauthor A <a@b> 12345678901234 +0100\ncommitter A <a@b> 1 +0000\n\nm";
    let id = loose(&d, "commit", body);
    let r = Repository::open(&d).unwrap();
    let o = r.object_database().parse_object(id).unwrap();
    match o.data() {
        ObjectData::Commit(c) => {
            assert_eq!(c.author().timestamp().unwrap(), "12345678901234");
            assert_eq!(c.author().timezone().unwrap(), "+0100");
        }
        _ => panic!(),
    }
}
""")
seed("c23-email", "C23", [(SG, "        self.captures.get(2).unwrap().as_bytes().as_bstr()", "        let email = self.captures.get(2).unwrap().as_bytes();\n        email.split(|b| *b == b'>').next().unwrap_or(email).as_bstr()")],
     "an email that contains a closing bracket", "the email is cut short", r"""
fn main() {
    let d = repo("r");
    let body = b"tree 0123456789012345678901234567890123456789\nauthor A <a>b@c> 1 +0100\ncommitter A <a@b> 1 +0000\n\nm";
    let id = loose(&d, "commit", body);
    let r = Repository::open(&d).unwrap();
    let o = r.object_database().parse_object(id).unwrap();
    match o.data() {
        ObjectData::Commit(c) => assert_eq!(c.author().email(), "a>b@c"),
        _ => panic!(),
    }
}
""")
seed("c06-keep-small", "C06", [(LO, "        let (dir, file) = object_path_parts(&hex);\n\n        let dir = self.path.join(dir);\n", "        let (prefix, name) = object_path_parts(&hex);\n\n        let dir = self.path.join(prefix);\n"),
      (LO, "        let path = dir.join(file);\n        if path.exists()", "        let path = dir.join(name);\n        if path.exists()"),
      (LO, "        // Write to a temporary file first, so", """        // A small object is written at once
        if bytes.len() < 16 * 1024 {
            let file = OpenOptions::new().create_new(true).write(true).open(&path)?;
            write_compressed(fs_err::File::from_parts(file, path), bytes)?;
            return Ok(id);
        }

        // Write to a temporary file first, so""")],
     "a write of a small object that fails part-way", "a partial object is visible under its id", r"""
extern "C" {
    fn setrlimit(resource: i32, limit: *const [u64; 2]) -> i32;
    fn signal(n: i32, h: usize) -> usize;
}
fn main() {
    let d = repo("r");
    let mut x = 1u64;
    let body: Vec<u8> = (0..8000)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 33) as u8
        })
        .collect();
    let r = Repository::open(&d).unwrap();
    let raw = full("blob", &body);
    // files cannot grow beyond 1000 bytes
    unsafe {
        signal(25, 1);
        assert_eq!(setrlimit(1, &[1000, 1000]), 0);
    }
    assert!(r.object_database().write_object(&raw).is_err());
    assert!(!d.join(".git").join(loose_path(&sha(&raw))).exists(), "a partial object is visible");
}
""")
