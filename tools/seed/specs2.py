seed("c24-explicit-zero", "C24", [(DL, """            if len == 0 {
                len = 0x1_0000;""", """            if cmd & 0b0111_0000 == 0 {
                // No length bytes are present.
                len = 0x1_0000;""")],
     "a delta whose copy command spells its length as an explicit zero byte", "a copy of 64 KiB becomes a copy of nothing", r"""
fn main() {
    let d = repo("r");
    let base: Vec<u8> = (0..70000u32).map(|i| (i * 7 + i / 256) as u8).collect();
    let mut want = base[..0x1_0000].to_vec();
    want.extend_from_slice(b"tail");
    // offset 0, one length byte which is zero: 64 KiB
    let cmds = [vec![0x80 | 0x10, 0], insert(b"tail")];
    let mut p = Pack::new();
    let b = p.add("blob", &base);
    let id = oid("blob", &want);
    p.ofs_delta(id, b, &delta(base.len() as u64, want.len() as u64, &cmds));
    p.write(&d, "pack-1");
    assert!(blob(&d, id).expect("a valid delta was rejected") == want);
}
""")
seed("c15-copy-clamp", "C15", [(DL, """                    .get(..len)
                    .ok_or(DeltaError::InvalidCommand)?""", """                    .get(..len)
                    .or_else(|| base.get(offset..))
                    .ok_or(DeltaError::InvalidCommand)?""")],
     "a corrupt delta that copies past the end of its base and declares the length that exists", "a copy command outside the base is cut short and accepted", r"""
fn main() {
    let d = repo("r");
    let base = b"0123456789";
    let mut p = Pack::new();
    let b = p.add("blob", base);
    let id = oid("blob", b"456789");
    p.ofs_delta(id, b, &delta(10, 6, &[copy(4, 9)]));
    p.write(&d, "pack-1");
    assert!(blob(&d, id).is_err(), "a copy past the end of the base was accepted");
}
""")
seed("c17-shared-cache", "C17", [(PK, "    cache: DashMap<u64, (ObjectHeader, Bytes)>,\n", "    cache: std::sync::Arc<DashMap<u64, (ObjectHeader, Bytes)>>,\n"),
      (PK, "    pub fn open(path: PathBuf) -> Result<Self, ReadPackFileError> {", "    pub fn open(\n        path: PathBuf,\n        cache: std::sync::Arc<DashMap<u64, (ObjectHeader, Bytes)>>,\n    ) -> Result<Self, ReadPackFileError> {"),
      (PK, "            cache: DashMap::new(),\n", "            cache,\n"),
      (PD, "    packs: DashMap<PathBuf, Arc<Entry>>,\n", "    packs: DashMap<PathBuf, Arc<Entry>>,\n    // one cache for all the packs, so that its size can be bounded\n    cache: pack::Cache,\n"),
      (PD, "            packs: DashMap::new(),\n", "            packs: DashMap::new(),\n            cache: Default::default(),\n"),
      (PK, "type Chain = ", "pub(in crate::object::database::packed) type Cache = std::sync::Arc<DashMap<u64, (ObjectHeader, Bytes)>>;\n\ntype Chain = "),
      (PD, "or_try_insert_with(move || Entry::open(path).map(Arc::new))", "or_try_insert_with(move || Entry::open(path, self.cache.clone()).map(Arc::new))"),
      (PD, "    fn open(path: PathBuf) -> Result<Self, ReadEntryError> {", "    fn open(path: PathBuf, cache: pack::Cache) -> Result<Self, ReadEntryError> {"),
      (PD, 'PackFile::open(path.with_extension("pack"))', 'PackFile::open(path.with_extension("pack"), cache)')],
     "two packs with different objects at the same offset, read through one repository handle", "the cache returns an object of another pack", r"""
use rusty_git::object::ObjectData;
use rusty_git::repository::Repository;
fn main() {
    let d = repo("r");
    for (n, b) in ["one", "two"].iter().enumerate() {
        let mut p = Pack::new();
        p.add("blob", b.as_bytes());
        p.write(&d, &format!("pack-{}", n));
    }
    let r = Repository::open(&d).unwrap();
    for b in ["one", "two"].iter() {
        let o = r.object_database().parse_object(oid("blob", b.as_bytes())).unwrap();
        match o.data() {
            ObjectData::Blob(x) => assert_eq!(x.data(), *b, "wrong object"),
            _ => panic!(),
        }
    }
}
""")
seed("c17-base-key", "C17", [(PK, """                DashMapEntry::Occupied(entry) => {
                    return Ok((chain, entry.get().0, entry.get().1.clone()))
                }
                DashMapEntry::Vacant(entry) => entry,
            };
""", """                DashMapEntry::Occupied(entry) => {
                    return Ok((chain, entry.get().0, entry.get().1.clone()))
                }
                DashMapEntry::Vacant(entry) => entry,
            };
            let first = *first.get_or_insert(offset);
"""), (PK, "        let mut chain = Chain::new();\n", "        let mut chain = Chain::new();\n        let mut first = None;\n"),
     (PK, "                    cache_entry.insert((header, base.clone()));\n", """                    drop(cache_entry);
                    // Most lookups are repeated, so keep the base of the chain.
                    self.cache.insert(first, (header, base.clone()));
"""), (PK, "            .insert(delta.key, result.clone())\n            .unwrap_or(result))", "            .insert(delta.key, result.clone())\n            .map_or(result.clone(), |_| result))")],
     "a delta that fails to apply the first time it is read, read a second time", "the base object is cached under the offset of the delta", r"""
use rusty_git::repository::Repository;
fn main() {
    let d = repo("r");
    let mut p = Pack::new();
    let b = p.add("blob", b"0123456789");
    let id = oid("blob", b"456");
    p.ofs_delta(id, b, &delta(10, 7, &[copy(4, 3)]));
    p.write(&d, "pack-1");
    let r = Repository::open(&d).unwrap();
    for _ in 0..2 {
        assert!(r.object_database().parse_object(id).is_err(), "the base was returned for a broken delta");
    }
}
""")
seed("c22-v1-mask", "C22", [(IX, "                (u64::from(entry.offset.get()), entry.id)", "                (u64::from(entry.offset.get() & 0x7fffffff), entry.id)")],
     "a version 1 index for a pack between 2 and 4 GiB", "the top bit of an offset is dropped", r"""
use std::io::{Seek, SeekFrom, Write};
fn main() {
    let d = repo("r");
    let body = b"far away";
    let id = oid("blob", body);
    let at = 0x8000_0010u64;
    let path = d.join(".git/objects/pack/pack-1.pack");
    fs::create_dir_all(path.parent().unwrap()).unwrap();
    let mut f = fs::File::create(&path).unwrap();
    f.write_all(b"PACK\0\0\0\x02\0\0\0\x01").unwrap();
    f.seek(SeekFrom::Start(at)).unwrap();
    f.write_all(&head(3, body.len() as u64)).unwrap();
    f.write_all(&deflate(body)).unwrap();
    f.write_all(&[7; 20]).unwrap();
    let raw = raw_id(&id);
    let mut v = vec![];
    for b in 0..256usize {
        v.extend_from_slice(&((raw[0] as usize <= b) as u32).to_be_bytes());
    }
    v.extend_from_slice(&(at as u32).to_be_bytes());
    v.extend_from_slice(&raw);
    v.extend_from_slice(&[7; 20]);
    let h = raw_id(&sha(&v));
    v.extend_from_slice(&h);
    put(&d, "objects/pack/pack-1.idx", &v);
    assert_eq!(blob(&d, id).expect("the object was not found"), body);
}
""")
seed("c22-large-table", "C22", [(IX, """                        .get(large_offset_index)
""", """                        .get(large_offset_index.min(index_start + index))
""")],
     "a pack over 2 GiB whose large offsets are not in the order of the ids", "the offset of another object is returned", r"""
use std::io::{Seek, SeekFrom, Write};
fn main() {
    let d = repo("r");
    let mut bodies: Vec<Vec<u8>> = (0..2u8).map(|i| format!("body {}", i).into_bytes()).collect();
    bodies.sort_by_key(|b| raw_id(&oid("blob", b)));
    let path = d.join(".git/objects/pack/pack-1.pack");
    fs::create_dir_all(path.parent().unwrap()).unwrap();
    let mut f = fs::File::create(&path).unwrap();
    f.write_all(b"PACK\0\0\0\x02\0\0\0\x02").unwrap();
    let mut at = vec![];
    f.seek(SeekFrom::Start(0x8000_0010)).unwrap();
    for b in &bodies {
        at.push(f.seek(SeekFrom::Current(0)).unwrap());
        f.write_all(&head(3, b.len() as u64)).unwrap();
        f.write_all(&deflate(b)).unwrap();
    }
    f.write_all(&[7; 20]).unwrap();
    let raws: Vec<Vec<u8>> = bodies.iter().map(|b| raw_id(&oid("blob", b))).collect();
    let mut v = b"\xfftOc\0\0\0\x02".to_vec();
    for b in 0..256usize {
        v.extend_from_slice(&(raws.iter().filter(|r| r[0] as usize <= b).count() as u32).to_be_bytes());
    }
    v.extend(raws.concat());
    v.extend_from_slice(&[0; 8]);
    // the table of large offsets holds them in the opposite order
    v.extend_from_slice(&[0x80, 0, 0, 1, 0x80, 0, 0, 0]);
    v.extend_from_slice(&at[1].to_be_bytes());
    // only one of the two needs more bits: the second entry of the table is valid too
    v.extend_from_slice(&[7; 20]);
    let _ = v.split_off(v.len() - 20);
    // a large offset table may hold count - 1 entries, so make the first object small
    let mut v = b"\xfftOc\0\0\0\x02".to_vec();
    let third = b"a third, near".to_vec();
    let near = {
        f.seek(SeekFrom::Start(12)).unwrap();
        f.write_all(&head(3, third.len() as u64)).unwrap();
        f.write_all(&deflate(&third)).unwrap();
        f.seek(SeekFrom::Start(8)).unwrap();
        f.write_all(&[0, 0, 0, 3]).unwrap();
        12u64
    };
    let mut all: Vec<(Vec<u8>, Option<u64>)> = raws.iter().cloned().zip(at.iter().map(|a| Some(*a))).collect();
    all.push((raw_id(&oid("blob", &third)), None));
    all.sort();
    for b in 0..256usize {
        v.extend_from_slice(&(all.iter().filter(|r| r.0[0] as usize <= b).count() as u32).to_be_bytes());
    }
    for r in &all {
        v.extend_from_slice(&r.0);
    }
    v.extend_from_slice(&[0; 12]);
    let mut k = 1u32;
    for r in &all {
        match r.1 {
            Some(_) => {
                v.extend_from_slice(&(0x8000_0000 | k).to_be_bytes());
                k = k.wrapping_sub(1);
            }
            None => v.extend_from_slice(&(near as u32).to_be_bytes()),
        }
    }
    let big: Vec<u64> = all.iter().filter_map(|r| r.1).collect();
    v.extend_from_slice(&big[1].to_be_bytes());
    v.extend_from_slice(&big[0].to_be_bytes());
    v.extend_from_slice(&[7; 20]);
    let h = raw_id(&sha(&v));
    v.extend_from_slice(&h);
    put(&d, "objects/pack/pack-1.idx", &v);
    for b in bodies.iter().chain(Some(&third)) {
        assert_eq!(&blob(&d, oid("blob", b)).expect("not found"), b);
    }
}
""")
seed("c24-offset-bits", "C24", [(DL, """            if intersects(cmd, 0b0000_1000) {
                offset |= u64::from(self.read_byte()?) << 24;
            }
""", """            if intersects(cmd, 0b0000_1000) {
                offset |= u64::from(self.read_byte()?) << if intersects(cmd, 0b0000_0100) { 24 } else { 16 };
            }
""")],
     "a copy command with an offset of at least 16 MiB whose third byte is zero", "the offset of the copy is decoded wrongly", r"""
fn main() {
    let d = repo("r");
    let mut base = vec![0u8; (1 << 24) + 100];
    let n = base.len();
    for i in 0..50 {
        base[n - 50 + i] = 200 + i as u8;
    }
    let want = base[(1 << 24) + 60..(1 << 24) + 70].to_vec();
    let mut p = Pack::new();
    let b = p.add("blob", &base);
    let id = oid("blob", &want);
    p.ofs_delta(id, b, &delta(n as u64, 10, &[vec![0x80 | 0x10 | 0x8 | 0x1, 60, 1, 10]]));
    p.write(&d, "pack-1");
    assert_eq!(blob(&d, id).unwrap(), want);
}
""")
