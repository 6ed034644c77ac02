#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the source of truth is the table below)."""
import json, os

I, S, C, H, F = "inputs", "schedules", "crash_points", "histories", "fault_sequences"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(
        id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text),
        why_tests_cant=why,
        anchors=dict(
            files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=None)))


prop("C01", "Hostile repository content never panics the library",
     "Whatever bytes the files of a repository contain (loose objects, pack files, pack indexes, references) and whatever ids, short ids, reference names or byte strings a caller passes, no public operation panics: not while opening, looking up, parsing, listing, peeling or writing, and not in the accessors and Debug/Display output of the values those operations return. "
     "Out-of-range indexing and slicing, unwrapping of absent values, mismatched copies and arithmetic overflow all count as panics. "
     "The only excluded cases are the contract that `Id::from_bytes` is given exactly 20 bytes, and debug-only self-checks.",
     [I], "all contents of repository files and all arguments of public operations",
     "Tests feed a few well-formed objects and one random-bytes property test of the reference parser; none feeds malformed packs, indexes, trees, tags or commits.",
     ["src/parse/buffer.rs", "src/parse/parser.rs", "src/object/parse.rs", "src/object/commit.rs", "src/object/tag.rs", "src/object/tree.rs", "src/object/blob.rs", "src/object/signature.rs", "src/object.rs", "src/object/database/packed.rs", "src/object/database/packed/index.rs", "src/object/database/packed/pack.rs", "src/object/database/packed/delta.rs", "src/reference/parser.rs", "src/reference/database.rs"],
     [("length checks before every slice", "src/parse/parser.rs advance/consume_*; src/parse/buffer.rs read_until/read_exact"), ("index size validation", "src/object/database/packed/index.rs IndexFile::parse")],
     observe=["panics of public operations"])

prop("C02", "Memory use is driven by data present, not by declared sizes",
     "A length, count or offset that was merely read from a repository file never by itself determines how much memory is requested: every buffer that is allocated, reserved or resized is bounded by a fixed constant plus the amount of data actually read or already held at that moment. "
     "In particular a tiny object, pack entry, delta or index that declares an enormous size is rejected or read incrementally instead of triggering a huge allocation.",
     [I], "all declared lengths, counts and offsets in repository files",
     "Tests only contain honest lengths, for which an allocation of the declared size is indistinguishable from one of the actual size.",
     ["src/parse/buffer.rs", "src/object/database/packed/delta.rs", "src/object/database/packed/index.rs", "src/object/tree.rs"],
     [("incremental growth", "src/parse/buffer.rs fill_buf_to"), ("bounded initial capacity", "src/object/database/packed/delta.rs apply_delta")])

prop("C03", "Every operation terminates on every repository",
     "No repository content makes an operation run forever or recurse without bound: cyclic or self-referential delta chains, symbolic references that form a cycle, directories reached through symbolic links, streams that end early and headers that never end all lead to a result or an error. "
     "Every loop either consumes a finite input or makes progress towards a fixed bound on each iteration; the only unbounded retries allowed are of system calls that were interrupted or of temporary names that are already taken.",
     [I], "all repository contents, including adversarial link structure",
     "Non-termination only shows on contents with cycles or truncated streams, which no test has.",
     ["src/object/database/packed/pack.rs", "src/parse/buffer.rs", "src/reference/symbolic.rs", "src/reference/database.rs", "src/reference/parser.rs", "src/object/commit.rs", "src/object/tree.rs", "src/object/database/packed/delta.rs"],
     [("chain bounded by object count", "pack.rs find_chain"), ("bounded symbolic depth", "symbolic.rs peel"), ("directory entries' own file type decides recursion", "reference/database.rs get_file_paths_from_dir")])

prop("C04", "I/O and decoding failures are never swallowed",
     "If opening, reading, seeking, decompressing, listing or writing a repository file fails, or an id, number or text field fails to decode, the public operation that needed it returns an error; it never returns a success built from partial data. "
     "The only failures that may be absorbed are: an interrupted read (retried), a missing file or directory where absence is itself the answer, an already existing directory or name while writing an object, and the best-effort timestamp refresh and temporary-file cleanup.",
     [F, I], "every system call or decoding step failing at any point of any operation",
     "Tests run on healthy files; no test injects an I/O error.",
     ["src/parse/buffer.rs", "src/object/database/loose.rs", "src/object/database/packed.rs", "src/object/database/packed/pack.rs", "src/object/database/packed/index.rs", "src/reference/database.rs", "src/reference/parser.rs", "src/repository.rs"],
     [("error propagation with ?", "throughout"), ("kind-specific arms", "loose.rs, reference/database.rs, repository.rs")])

prop("C05", "An object is reported missing only after looking everywhere",
     "Reading an object reports not-found only if the known packs did not contain it, then the loose object file for that id did not exist, and then a rescan of the pack directory performed after that found no pack containing it, so an object that moves from loose to packed during the lookup is still found. "
     "Any other failure (unreadable file, corrupt index or pack, malformed object) is reported as a different error, never as not-found.",
     [S, F, I], "all interleavings with a concurrent repack and all failures",
     "The tests only look up objects that exist, in a quiescent repository.",
     ["src/object/database.rs", "src/object/database/packed.rs", "src/object/database/loose.rs", "src/object.rs"],
     [("packed, loose, packed-again lookup", "src/object/database.rs read_object"), ("forced refresh", "src/object/database/packed.rs refresh")],
     observe=["ReadObjectError::is_not_found"])

prop("C06", "Loose objects become visible only when complete",
     "Writing an object never makes a file visible under its final object path before all of its compressed bytes have been written, the compressor finished and the data synced: the data goes to a different name in the object directory which is then renamed. "
     "Success is returned only after that rename succeeded, or when the object already existed; if any step fails an error is returned and nothing was published.",
     [C, F, S], "every crash point and every failing step of every write, and all concurrent readers",
     "Tests write into an empty directory without faults or crashes and read afterwards.",
     ["src/object/database/loose.rs"],
     [("temporary file, sync, rename", "src/object/database/loose.rs write_object")],
     observe=["order of file-system operations"])

prop("C07", "Only writing an object modifies the repository",
     "Opening a repository and every reading operation (objects, packs, references, listing, peeling) never create, modify, rename or delete any file or directory. "
     "Writing an object only creates its fan-out directory, a temporary file beside the object, and the object itself, may refresh the timestamp of the same object if it already exists, and removes only the temporary file it created; it never truncates, overwrites in place or deletes an existing object.",
     [I, H], "all operations on all repositories",
     "Tests check results, not the absence of side effects, and cannot enumerate all paths.",
     ["src/object/database/loose.rs", "src/object/database/packed.rs", "src/reference/database.rs", "src/repository.rs"],
     [("effects confined to write_object", "src/object/database/loose.rs")])

prop("C08", "Reference names cannot reach files outside the repository",
     "A reference name, whether passed by a caller or read from a symbolic reference inside the repository, only ever makes the library open a file below the repository's .git directory: absolute names and names with a parent-directory or other non-plain component are rejected before any file is opened. "
     "Object ids likewise only map to files below .git/objects.",
     [I], "all reference names and all symbolic reference contents",
     "Tests use only plain names.",
     ["src/reference/database.rs", "src/reference/symbolic.rs", "src/object/database/loose.rs"],
     [("component check before open", "src/reference/database.rs read_reference_file")])

prop("C09", "Concurrent use cannot deadlock",
     "For any number of threads sharing one repository, the locks the library takes (the pack-scan lock, the per-pack file lock, and the shard locks of its concurrent maps) are always acquired in one global order, a thread never acquires a lock it already holds, and no lock is held when an operation returns.",
     [S], "all interleavings of any operations on a shared repository",
     "A deadlock needs a particular interleaving; the tests are single-threaded.",
     ["src/object/database/packed.rs", "src/object/database/packed/pack.rs"],
     [("lock nesting", "packed.rs refresh, try_read_object; pack.rs find_chain, apply_delta")],
     state=[("last_refresh", "pack-scan lock", "packed.rs"), ("file", "per-pack file lock", "pack.rs"), ("cache, packs", "concurrent maps", "pack.rs, packed.rs")])

prop("C10", "Every pack read is positioned under the lock it reads under",
     "Pack data is read through a file cursor shared by all threads; every read of pack data is preceded, within the same uninterrupted hold of that pack's lock, by a seek to the position the data is wanted from, and buffered bytes left over from an earlier position are never used. "
     "So the bytes one thread decodes never depend on where another thread, or an earlier failed read, left the cursor.",
     [S, H], "all interleavings and all earlier reads, successful or failed",
     "Needs two threads or a failed read followed by a successful one; tests are single-threaded and read each pack once.",
     ["src/object/database/packed/pack.rs", "src/parse/buffer.rs"],
     [("seek after lock", "pack.rs find_chain, apply_delta"), ("seek discards the buffer", "buffer.rs Seek impl")])

prop("C11", "Handles can be shared between threads; no unsafe code",
     "The repository handle, its object and reference databases, and the values read from them (objects, commits, trees, tags, blobs, ids) can be sent to and shared between threads, as checked by the compiler, and the crate contains no unsafe code and no unsynchronised global state that could make that promise false.",
     [S, "programs"], "all client programs that share handles across threads",
     "No test moves a handle to another thread.",
     ["src/repository.rs", "src/object.rs", "src/object/database.rs", "src/reference/database.rs"],
     [("Mutex, DashMap and Arc around shared state", "packed.rs, pack.rs")])

prop("C12", "Object kind on disk and kind returned always agree",
     "An object stored as a commit, tree, blob or tag is only ever returned as that kind of object: the loose header words, the type codes 1 to 4 of a pack entry, and the kind named in a tag each denote the same four kinds, any other word or code is rejected, and an object stored as a delta has the kind of the base at the end of its chain.",
     [I], "all header words, all 8 type codes, all delta chains",
     "The one pack test reads a single object and ignores its kind; loose tests do not parse kinds other than one.",
     ["src/object/parse.rs", "src/object/database/packed/pack.rs", "src/object.rs", "src/object/database/packed/delta.rs", "src/object/tag.rs"],
     [("kind tables", "parse.rs ObjectKind::from_bytes, parse_object_body; pack.rs read_pack_object_header")])

prop("C13", "An object is returned only if it has its declared length",
     "Parsing an object succeeds only if the number of content bytes its (decompressed) stream yields is exactly the length its header declares and the stream then ends; a stream that is shorter or longer is an error. "
     "This holds for loose objects, packed objects and the delta data they are built from, and the content handed to the caller is exactly those bytes.",
     [I], "all streams and all declared lengths",
     "Tests only contain objects whose length is right.",
     ["src/parse/buffer.rs", "src/object/parse.rs", "src/object/database/packed/pack.rs", "src/object/database/reader.rs"],
     [("read exactly, then require end of stream", "buffer.rs read_to_end")])

prop("C14", "Only a consistent pack and index pair is used",
     "A pack becomes usable for lookups only if its file starts with the pack signature and has version 2 or 3, its index is of a known version with a non-decreasing fan-out table and a file size that fits its object count, and the index and the pack agree on both the object count and the pack checksum. "
     "Otherwise an error is returned and the pack is not used.",
     [I], "all contents of .pack and .idx files",
     "Tests contain one valid pack and two hand-made valid indexes.",
     ["src/object/database/packed.rs", "src/object/database/packed/index.rs", "src/object/database/packed/pack.rs"],
     [("validation on open", "packed.rs Entry::open; index.rs IndexFile::parse; pack.rs PackFile::open")])

prop("C15", "Delta application is exact",
     "Applying a delta succeeds only if the base has exactly the length the delta declares for it and the result has exactly the declared result length; each command appends, in order, either the addressed in-range slice of the base or the literal bytes that follow the command, nothing else is added or lost, the reserved command 0 is rejected, and deltas of a chain are applied from the one nearest the base outwards.",
     [I], "all bases and all delta streams",
     "No existing test applies a delta.",
     ["src/object/database/packed/delta.rs", "src/object/database/packed/pack.rs"],
     [("apply_delta", "delta.rs"), ("read_object", "pack.rs")])

prop("C16", "Accessors return the right header fields",
     "For every object that parses, each accessor returns the bytes of the header line of its own name: a commit's tree, parents, author, committer and encoding, and a tag's object, type, tag and tagger come from the lines introduced by exactly those words; the message is everything after the blank line that ends the headers; and each tree entry's mode (octal digits before the space), name (up to the NUL) and id (the 20 bytes after it) come from the same entry, in order.",
     [I], "all well-formed and malformed commits, tags and trees",
     "Tests check one commit and one tree.",
     ["src/object/commit.rs", "src/object/tag.rs", "src/object/tree.rs", "src/parse/parser.rs", "src/object/signature.rs"],
     [("recorded offsets", "commit.rs, tag.rs, tree.rs parse")])

prop("C17", "The pack cache never returns another object's data",
     "Decoded pack entries are remembered under the offset of their own entry and found only by that offset; what is remembered for an offset is what decoding the entry at that offset yields, so reading an object gives the same kind and content whether or not it, its bases, or any other object was read before.",
     [H, S], "all sequences and interleavings of reads of one pack",
     "The pack test reads one object once, with a cold cache.",
     ["src/object/database/packed/pack.rs"],
     [("cache keyed by entry offset", "pack.rs find_chain, apply_delta")],
     state=[("cache", "decoded entries by offset", "pack.rs PackFile")])

prop("C18", "A pack scan counts only when complete, and packs stay known",
     "The pack directory is considered scanned (suppressing rescans for a while) only after every entry of it has been visited and every index file found was opened and validated or already known; a scan that fails part-way does not suppress the next one. "
     "Once a pack is known it stays known, every file with the extension idx and only those are treated as indexes, and the pack belonging to an index is the file of the same name with extension pack.",
     [F, S, H], "all failures during a scan and all later lookups",
     "Tests scan once, without failures.",
     ["src/object/database/packed.rs"],
     [("refresh", "packed.rs")],
     state=[("last_refresh", "time of the last complete scan", "packed.rs"), ("packs", "known packs by index path", "packed.rs")])

prop("C19", "Listing returns every reference file, named relative to .git",
     "Listing references visits refs/heads, refs/tags and refs/remotes (the full listing covers all three, each partial listing its own), descends into every real subdirectory at any depth, returns each non-directory entry exactly once by its path relative to the .git directory with forward slashes, and treats a missing directory as empty.",
     [I], "all directory trees below refs",
     "Tests list a handful of flat references.",
     ["src/reference/database.rs"],
     [("recursive listing", "reference/database.rs")])

prop("C20", "References are classified and resolved by their content",
     "A reference file's first line that is not empty, a comment or indented decides its meaning: a line whose target contains a slash (after an optional `ref: ` prefix, and an optional `<id> ` that gives the object it peels to) is a symbolic reference to exactly that target with trailing whitespace removed, and anything else must be a full 40-digit object id, with nothing else on the line, and is a direct reference to it. "
     "Peeling follows symbolic references to the object named by the final direct reference, and fails when the reference is missing, malformed or nested too deeply.",
     [I], "all reference file contents and all chains of symbolic references",
     "The parser tests cover nine inputs; peeling is tested on a well-formed HEAD only.",
     ["src/reference/parser.rs", "src/reference/direct.rs", "src/reference/symbolic.rs", "src/reference.rs"],
     [("line parser", "reference/parser.rs"), ("peel", "reference/symbolic.rs")])

prop("C21", "Ids are exactly their hexadecimal digits",
     "An id is accepted only from exactly 40 hexadecimal digits and a short id only from 4 to 40 of them; everything else is an error, and printing gives back the same digits in lower case. "
     "A short id compares with a full id by its own bytes only: it is a prefix match exactly when all of its bytes agree, and ordering follows the byte order used to sort pack indexes, in both directions of comparison.",
     [I], "all byte strings as ids, all pairs of ids and short ids",
     "Tests check a few ids and one sorted list.",
     ["src/object.rs"],
     [("from_hex, cmp_short, starts_with", "src/object.rs")])

prop("C22", "An index lookup returns the offset of the id it matched",
     "Looking up an id in a pack index searches exactly the range of the sorted id table that the fan-out gives for the id's first byte, and the offset returned is the one stored for the same position as the id that matched, read from the 32-bit table or, when its top bit is set, from the 64-bit table slot it names (out-of-range slots are errors). "
     "An id matching no entry is not found, and a short id matching more than one entry is ambiguous.",
     [I], "all index contents, versions 1 and 2, all ids and short ids",
     "Tests search two three-entry indexes; position mix-ups need several fan-out buckets and large offsets.",
     ["src/object/database/packed/index.rs"],
     [("find_offset", "index.rs")])

prop("C23", "Signatures keep names and emails intact",
     "For every author, committer or tagger line that is accepted, name and email are the text before and inside the angle brackets with only git's ignorable characters (bytes up to and including space, and . , : ; < > \" \\ ') stripped from their start, containing any other byte, valid UTF-8 or not; timestamp and timezone are the decimal digits and the signed digits that follow, when present. "
     "Lines that do not have this shape are rejected when the object is parsed, not when the signature is used.",
     [I], "all signature lines",
     "Tests check three ASCII signatures.",
     ["src/object/signature.rs"],
     [("signature pattern", "signature.rs")])

prop("C24", "Binary pack fields are decoded bit-exactly",
     "For every byte sequence, pack entry headers (3-bit type, 4+7n-bit little-endian size), base offsets of offset deltas (big-endian base-128 with the +1 bias per continuation byte), delta lengths (little-endian base-128) and delta copy commands (offset from bytes selected by bits 0 to 3, length from bytes selected by bits 4 to 6, zero meaning 65536) decode to the values the pack format defines, consuming exactly the bytes the format says.",
     [I], "all encodings of each field",
     "Unit tests decode one maximal size and one maximal offset; no test covers copy commands or multi-byte values.",
     ["src/object/database/packed/pack.rs", "src/object/database/packed/delta.rs"],
     [("decoders", "pack.rs read_pack_object_header, read_delta_offset; delta.rs read_delta_header_len, read_command")])

prop("C25", "Objects are stored and found under the hash of their bytes",
     "Writing returns the SHA-1 of exactly the bytes given, stores exactly those bytes (zlib-compressed) in objects/<first two hex digits>/<remaining 38> of that hash, and reading an id opens exactly that path, so what was written under an id is what is read for it. "
     "If the object already exists its bytes are left untouched and the same id is returned.",
     [I, H], "all byte strings written and all ids read",
     "A round-trip test samples byte strings but cannot see a path or id scheme that is wrong in the same way on both sides.",
     ["src/object/database/loose.rs", "src/object.rs", "src/object/database.rs"],
     [("object_path_parts, Id::from_hash", "loose.rs, object.rs")])

# --- stated, but outside the reach of static analysis here
prop("N01", "Decoded objects equal what git itself stored",
     "For every repository produced by git, the content of every object read through the library equals the content git stored under that id.",
     [I, H], "all repositories git can produce",
     "Tests compare a handful of objects.",
     ["src/object/database.rs"], [("whole read path", "src/object/database")])
prop("N02", "A written object survives power loss",
     "After a write returned success, the object is still present and intact after a power failure, on every file system.",
     [C], "all crash points after success",
     "Tests do not crash the machine.",
     ["src/object/database/loose.rs"], [("sync before rename", "loose.rs")])
prop("N03", "Corrupted content is detected by its hash",
     "Reading an object whose stored content does not hash to its id is reported as an error.",
     [I], "all corruptions of stored content",
     "Tests contain only intact objects.",
     ["src/object/database.rs"], [("none: the library does not verify hashes", "src/object/database.rs")])
prop("N04", "Reads linearise with concurrent git processes",
     "Any history of reads by this library concurrent with repacking, pruning and reference updates by git is equivalent to some sequential history.",
     [S, H], "all histories of concurrent processes",
     "Tests are single-process.",
     ["src/object/database/packed.rs", "src/reference/database.rs"], [("lookup order", "src/object/database.rs")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    with open(out, "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps(p) + "\n")
