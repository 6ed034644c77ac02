seed("c06-stale-temp", "C06", [(LO, """            // Left over from another process, try again with a different name.
            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => continue,
            Err(err) => return Err(err),
""", """            // Left over from another process, which has no more use for it.
            Err(err) if err.kind() == io::ErrorKind::AlreadyExists => {
                let file = OpenOptions::new().write(true).open(&path)?;
                return Ok((fs_err::File::from_parts(file, path.clone()), path));
            }
            Err(err) => return Err(err),
""")],
     "a temporary file of a process that crashed and had the same id", "the end of the old file is published as a part of the object", r"""
fn main() {
    let d = repo("r");
    let body = full("blob", b"hello");
    let id = sha(&body);
    let f = d.join(".git").join("objects").join(&id.to_hex()[..2]);
    fs::create_dir_all(&f).unwrap();
    for n in 0..64 {
        fs::write(f.join(format!("tmp_obj_{}_{}", std::process::id(), n)), vec![7u8; 5000]).unwrap();
    }
    let r = Repository::open(&d).unwrap();
    let got = r.object_database().write_object(&body).unwrap();
    assert!(got == id);
    let len = fs::metadata(f.join(&id.to_hex()[2..])).unwrap().len();
    assert!(len < 1000, "{} bytes were published", len);
}
""")
seed("c08-deep-name", "C08", [(RD, "        if !name.components().all(|c| matches!(c, Component::Normal(_))) {", """        // No reference lies deeper than this.
        let mut parts = name.components().take(MAX_REFERENCE_DEPTH);
        if !parts.all(|c| matches!(c, Component::Normal(_))) {"""),
     (RD, 'const HEAD: &[u8] = b"HEAD";\n', 'const HEAD: &[u8] = b"HEAD";\nconst MAX_REFERENCE_DEPTH: usize = 16;\n')],
     "a name of more than sixteen parts that goes up in the end", "a file outside of the repository is read", r"""
fn main() {
    let d = repo("r");
    let mut name = String::new();
    let mut deep = d.join(".git");
    for _ in 0..16 {
        name.push_str("a/");
        deep = deep.join("a");
    }
    fs::create_dir_all(&deep).unwrap();
    for _ in 0..17 {
        name.push_str("../");
    }
    name.push_str("secret");
    fs::write(d.join("secret"), "0123456789012345678901234567890123456789\n").unwrap();
    let r = Repository::open(&d).unwrap();
    assert!(r.reference_database().reference(name.as_bytes()).is_err());
}
""")
