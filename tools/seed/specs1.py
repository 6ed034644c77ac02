PK = "src/object/database/packed/pack.rs"
DL = "src/object/database/packed/delta.rs"
IX = "src/object/database/packed/index.rs"
PD = "src/object/database/packed.rs"
LO = "src/object/database/loose.rs"
DB = "src/object/database.rs"
BU = "src/parse/buffer.rs"
RD = "src/reference/database.rs"

seed("c04-checksum", "C04", [(BU, """                Ok(_) => return Err(Error::InvalidLength),
                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
                Err(err) => return Err(Error::Io(err)),
            }
        }

        Ok(self.buffer.freeze())""", """                Ok(_) => return Err(Error::InvalidLength),
                Err(err) if err.kind() == io::ErrorKind::Interrupted => continue,
                // All the expected bytes have been read already.
                Err(_) => break,
            }
        }

        Ok(self.buffer.freeze())""")],
     "an object whose file was cut short before the checksum of the zlib stream", "a decompression failure at the end of an object is swallowed and the object returned", r"""
fn main() {
    let d = repo("r");
    let body = b"some content that is stored damaged";
    let id = oid("blob", body);
    let mut z = deflate(&full("blob", body));
    let n = z.len();
    z.truncate(n - 4);
    put(&d, &loose_path(&id), &z);
    assert!(blob(&d, id).is_err(), "a damaged object was returned");
}
""")

seed("c05-loose-error", "C05", [(LO, "Err(err) if err.kind() == io::ErrorKind::NotFound => Err(ReadLooseError::NotFound),", "Err(err) if err.kind() != io::ErrorKind::PermissionDenied => {\n                Err(ReadLooseError::NotFound)\n            }")],
     "opening the object file fails for a reason other than absence (a symbolic link loop)", "an unreadable object is reported as missing", r"""
fn main() {
    let d = repo("r");
    let id = oid("blob", b"x");
    let p = d.join(".git").join(loose_path(&id));
    fs::create_dir_all(p.parent().unwrap()).unwrap();
    std::os::unix::fs::symlink(&p, &p).unwrap();
    let e = blob(&d, id).unwrap_err();
    assert!(!e.is_not_found(), "a failure was reported as not found: {:?}", e);
}
""")

seed("c05-no-rescan", "C05", [(DB, "            Err(ReadLooseError::NotFound) => (),\n", """            // The packs have been searched already.
            Err(ReadLooseError::NotFound) if self.packed.scanned() => {
                return Err(ReadObjectError::new(id, ReadError::NotFound))
            }
            Err(ReadLooseError::NotFound) => (),
"""), (PD, "    pub(in crate::object::database) fn read_object(", """    pub(in crate::object::database) fn scanned(&self) -> bool {
        self.last_refresh.lock().unwrap().is_some()
    }

    pub(in crate::object::database) fn read_object(""")],
     "another process packs an object between two lookups", "an object that was just packed is reported missing", r"""
fn main() {
    let d = repo("r");
    let r = Repository::open(&d).unwrap();
    let id = oid("blob", b"packed later");
    assert!(r.object_database().parse_object(id).unwrap_err().is_not_found());
    let mut p = Pack::new();
    p.add("blob", b"packed later");
    p.write(&d, "pack-1");
    assert!(r.object_database().parse_object(id).is_ok(), "an object in a new pack is reported missing");
}
""")

seed("c06-short-write", "C06", [(LO, "    encoder.write_all(bytes)?;\n", """    // Keep the amount of pending output small by flushing at intervals.
    for block in bytes.chunks(1 << 20) {
        if encoder.write(block)? < block.len() {
            break;
        }
    }
""")],
     "an object large enough for the compressor to take only part of a block", "a truncated object is published under its final name", r"""
fn main() {
    let d = repo("r");
    let r = Repository::open(&d).unwrap();
    // incompressible data
    let mut x = 1u64;
    let body: Vec<u8> = (0..6_000_000)
        .map(|_| {
            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
            (x >> 33) as u8
        })
        .collect();
    let id = r.object_database().write_object(&full("blob", &body)).unwrap();
    let o = r.object_database().parse_object(id).expect("the object just written cannot be read");
    match o.data() {
        ObjectData::Blob(b) => assert_eq!(b.data(), &body[..]),
        _ => panic!(),
    }
}
""")

seed("c07-touch-on-read", "C07", [(LO, "        match fs_err::File::open(path) {\n            Ok(file) => Ok(ObjectReader::from_file(None, file)),", """        match fs_err::File::open(&path) {
            Ok(file) => {
                // Keep objects that are in use from being pruned.
                let _ = set_file_mtime(&path, FileTime::now());
                Ok(ObjectReader::from_file(None, file))
            }""")],
     "a loose object whose timestamp is looked at after it was read", "reading an object modifies the repository", r"""
fn main() {
    let d = repo("r");
    let id = loose(&d, "blob", b"x");
    let p = d.join(".git").join(loose_path(&id));
    let f = fs::File::options().write(true).open(&p).unwrap();
    let old = std::time::SystemTime::UNIX_EPOCH + std::time::Duration::from_secs(1_000_000);
    f.set_modified(old).unwrap();
    drop(f);
    blob(&d, id).unwrap();
    assert_eq!(fs::metadata(&p).unwrap().modified().unwrap(), old, "reading changed the file");
}
""")

seed("c08-worktree-fallback", "C08", [(RD, "            Err(err) if err.kind() == io::ErrorKind::NotFound => Err(Error::ReferenceNotFound),", """            // The repository may be a linked one, look beside it.
            Err(err) if err.kind() == io::ErrorKind::NotFound => {
                match fs_err::File::open(self.path.with_file_name("").join(name)) {
                    Ok(file) => Ok(file),
                    Err(_) => Err(Error::ReferenceNotFound),
                }
            }""")],
     "a reference that does not exist while a file of its name exists in the work tree", "a reference name reaches a file outside the .git directory", r"""
fn main() {
    let d = repo("r");
    fs::write(d.join("secret"), "0123456789012345678901234567890123456789\n").unwrap();
    let r = Repository::open(&d).unwrap();
    assert!(r.reference_database().reference(b"secret").is_err(), "a file outside .git was read as a reference");
}
""")

seed("c09-lock-order", "C09", [(PK, """        let mut buffer = self.file.lock().unwrap();

        buffer.seek(SeekFrom::Start(delta.offset))?;

        let bytes = buffer.decompress().read_to_end(delta.header.len)?;
        let result = apply_delta(base_kind, &base, &mut parse::Buffer::new(&*bytes))?;

        Ok(self
            .cache
            .insert(delta.key, result.clone())
            .unwrap_or(result))""", """        // Claim the entry first so that the delta is only applied once.
        let slot = match self.cache.entry(delta.key) {
            DashMapEntry::Occupied(entry) => return Ok(entry.get().clone()),
            DashMapEntry::Vacant(entry) => entry,
        };

        let mut buffer = self.file.lock().unwrap();
        buffer.seek(SeekFrom::Start(delta.offset))?;

        let bytes = buffer.decompress().read_to_end(delta.header.len)?;
        let result = apply_delta(base_kind, &base, &mut parse::Buffer::new(&*bytes))?;
        slot.insert(result.clone());

        Ok(result)""")],
     "two threads reading deltas of one pack, one holding the pack file while the other holds a cache shard", "the pack file lock and the cache locks are taken in both orders: deadlock", r"""
use std::sync::{Arc, Barrier};
fn main() {
    std::thread::spawn(|| {
        std::thread::sleep(std::time::Duration::from_secs(50));
        eprintln!("deadlock");
        std::process::exit(1);
    });
    let d = repo("r");
    let mut p = Pack::new();
    let body: Vec<u8> = (0..2000u32).map(|i| (i * 7 % 251) as u8).collect();
    let base = p.add("blob", &body);
    let mut ids = vec![];
    for i in 0..64u8 {
        let mut want = body.clone();
        want.push(i);
        let id = oid("blob", &want);
        p.ofs_delta(id, base, &delta(2000, 2001, &[copy(0, 2000), insert(&[i])]));
        ids.push(id);
    }
    p.write(&d, "pack-1");
    let ids = Arc::new(ids);
    for _ in 0..300 {
        let r = Arc::new(Repository::open(&d).unwrap());
        let b = Arc::new(Barrier::new(8));
        let hs: Vec<_> = (0..8usize)
            .map(|t| {
                let (r, b, ids) = (r.clone(), b.clone(), ids.clone());
                std::thread::spawn(move || {
                    b.wait();
                    for i in 0..64 {
                        r.object_database().parse_object(ids[(i * 13 + t * 8) % 64]).unwrap();
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
    }
}
""")

seed("c10-two-guards", "C10", [(PK, """        let mut buffer = self.file.lock().unwrap();

        buffer.seek(SeekFrom::Start(delta.offset))?;

        let bytes = buffer.decompress().read_to_end(delta.header.len)?;
""", """        self.file
            .lock()
            .unwrap()
            .seek(SeekFrom::Start(delta.offset))?;

        let bytes = self
            .file
            .lock()
            .unwrap()
            .decompress()
            .read_to_end(delta.header.len)?;
""")],
     "another thread moves the shared file cursor between the seek and the read", "a delta is read from wherever another thread left the cursor", r"""
use std::sync::{Arc, Barrier};
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    let mut ids = vec![];
    for i in 0..64u8 {
        let body: Vec<u8> = (0..400u32).map(|k| (k * 7 % 251) as u8 ^ i).collect();
        let base = p.add("blob", &body);
        let mut want = body.clone();
        want.push(i);
        let id = oid("blob", &want);
        p.ofs_delta(id, base, &delta(400, 401, &[copy(0, 400), insert(&[i])]));
        ids.push((id, want));
    }
    p.write(&d, "pack-1");
    let ids = Arc::new(ids);
    for _ in 0..300 {
        let r = Arc::new(Repository::open(&d).unwrap());
        let b = Arc::new(Barrier::new(8));
        let hs: Vec<_> = (0..8usize)
            .map(|t| {
                let (r, b, ids) = (r.clone(), b.clone(), ids.clone());
                std::thread::spawn(move || {
                    b.wait();
                    for i in 0..64 {
                        let (id, want) = &ids[(i * 13 + t * 8) % 64];
                        let o = r.object_database().parse_object(*id).unwrap();
                        match o.data() {
                            ObjectData::Blob(x) => assert_eq!(x.data(), &want[..]),
                            _ => panic!(),
                        }
                    }
                })
            })
            .collect();
        for h in hs {
            h.join().unwrap();
        }
    }
}
""")

seed("c11-refcell", "C11", [(PD, "    last_refresh: Mutex<Option<Instant>>,", "    last_refresh: std::cell::RefCell<Option<Instant>>,"),
    (PD, "            last_refresh: Mutex::new(None),", "            last_refresh: std::cell::RefCell::new(None),"),
    (PD, "        let mut last_refresh_guard = self.last_refresh.lock().unwrap();", "        let mut last_refresh_guard = self.last_refresh.borrow_mut();")],
     "a client that shares a repository between threads", "the repository handle is no longer Sync", r"""
fn shared<T: Send + Sync>(_: &T) {}
fn main() {
    let d = repo("r");
    let r = Repository::open(&d).unwrap();
    shared(&r);
    shared(r.object_database());
}
""")

seed("c18-name-filter", "C18", [(PD, """            if path.extension() == Some("idx".as_ref()) {""", """            let name = path.file_name().map(|name| name.to_string_lossy().into_owned());
            // Skip temporary files that are still being written.
            if name.map_or(false, |name| name.starts_with("pack-") && name.ends_with(".idx")) {""")],
     "a pack whose name does not start with pack-", "an index file in the pack directory is passed over", r"""
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    p.add("blob", b"hello");
    p.write(&d, "other");
    assert_eq!(blob(&d, oid("blob", b"hello")).expect("a pack was not found"), b"hello");
}
""")

seed("c18-pack-name", "C18", [(PD, """PackFile::open(path.with_extension("pack"))""", """PackFile::open(path.with_file_name(format!(
            "{}.pack",
            name.split('.').next().unwrap_or_default()
        )))""")],
     "a pack with a dot in its name", "the pack opened is not the one named like its index", r"""
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    p.add("blob", b"hello");
    p.write(&d, "pack-a.1");
    assert_eq!(blob(&d, oid("blob", b"hello")).expect("the pack was not found"), b"hello");
}
""")

seed("c25-hash-blocks", "C25", [("src/object.rs", "        Id(Sha1::new().chain(bytes).finalize().into())\n", """            let mut hasher = Sha1::new();
            // Feed the data in blocks that fit the cache.
            for block in bytes.chunks(1 << 16) {
                hasher.update(block);
                if block.len() < 1 << 16 || block.iter().all(|&b| b == 0) {
                    break;
                }
            }
            Id(hasher.finalize().into())
""")],
     "an object with a whole block of zero bytes", "the id is not the SHA-1 of all the bytes", r"""
fn main() {
    let d = repo("r");
    let r = Repository::open(&d).unwrap();
    let a = r.object_database().write_object(&full("blob", &vec![0; 200_000])).unwrap();
    let mut v = vec![0; 200_000];
    v[150_000] = 1;
    let b = r.object_database().write_object(&full("blob", &v)).unwrap();
    let c = r.object_database().write_object(&full("blob", &vec![0; 200_000])).unwrap();
    assert_eq!(a, c);
    let mut w = vec![0u8; 1 << 16];
    w.extend_from_slice(b"one");
    let mut x = w.clone();
    x.truncate(1 << 16);
    x.extend_from_slice(b"two");
    assert!(r.object_database().write_object(&w).unwrap() != r.object_database().write_object(&x).unwrap(), "different contents have one id");
    let _ = b;
}
""")
