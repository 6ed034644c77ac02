#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry per property that check.sh decides, the others with the reason."""
import json, os, sys

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BASE = ("Sound with respect to the abstract semantics of the current tree's MIR: every call path of the public operations is covered, "
        "loops and recursion by fixpoint. Trusts rustc, the analyser, and its models of library functions (DESIGN.md).")
T = {
    "C01": ("interval and relational dataflow over MIR: every assertion, index, slice, unwrap and panicking library call is discharged or reported", " Type invariants (index file, short id, shared read buffer) are shown where a value is built and assumed where it is received; one debug-only self-check of the code (parser.finished() after an object header) is taken to hold; stack exhaustion and allocation failure are not panics."),
    "C02": ("interval and relational dataflow of every requested capacity over MIR", " Growth by repeated pushes is not bounded here; every explicit request (capacity, reserve, resize, filled or collected sequence) is."),
    "C03": ("ranking functions for every loop back-edge and recursive call, found by abstract interpretation over MIR", " Trusts that directories, maps and streams handed out by the system end, and that library iterators over finite things do."),
    "C04": ("interprocedural typestate of failures over MIR (abstract interpretation)", ""),
    "C05": ("interprocedural typestate of the lookup steps over MIR", ""),
    "C06": ("typestate of the temporary file over MIR", " A crash is covered as the set of prefixes of the file-system operations of each path."),
    "C07": ("interprocedural file-system effect analysis over MIR", ""),
    "C08": ("taint and provenance analysis of file paths over MIR", ""),
    "C09": ("lockset and lock-order analysis over MIR", ""),
    "C10": ("typestate of the shared file cursor under its lock over MIR", ""),
    "C11": ("compiler-computed auto traits and absence of unsafe code in the type-checked crate", ""),
    "C12": ("contracts of kind assignment by abstract interpretation over MIR (which type bits, header word or base each kind comes from)", ""),
    "C13": ("typestate of object streams and length contracts by abstract interpretation over MIR", ""),
    "C14": ("contract of opening a pack and its index by abstract interpretation over MIR (relational facts at every successful return)", ""),
    "C15": ("typestate of delta application over MIR (abstract interpretation with provenance of the bytes read and written)", ""),
    "C16": ("contracts of parsers and accessors by abstract interpretation over MIR (where in the content every returned field lies)", ""),
    "C17": ("provenance dataflow of cache keys and values over MIR", ""),
    "C18": ("typestate of the pack directory scan over MIR", ""),
    "C19": ("typestate of directory entries and of the lists made of them, by abstract interpretation over MIR", ""),
    "C20": ("typestate of the line scan of a reference file and provenance of the target and of peeled objects, by abstract interpretation over MIR", ""),
    "C21": ("contracts of id parsing, printing and comparison by abstract interpretation over MIR (facts holding at every return)", ""),
    "C22": ("component contract of the index lookup by abstract interpretation over MIR", " The contract is decided for arbitrary index content and ids; that the binary search converges on sorted entries is the library's model."),
    "C23": ("normal form of the constant signature pattern, and dataflow of its capture groups from the parsed line to the accessors over MIR", ""),
    "C24": ("bit-provenance dataflow of the binary decoders over MIR, their loops unrolled to the end", ""),
    "C25": ("provenance dataflow of object paths, stored bytes and ids over MIR", ""),
}
T.update(json.load(open(os.path.join(here, "tools", "manifest_extra.json"))) if os.path.exists(os.path.join(here, "tools", "manifest_extra.json")) else {})
NA = {
    "N01": "What git itself would return is defined by another program reading the same files; no static argument over this source relates the two beyond the format facts claimed separately (C12 to C16, C24, C25).",
    "N02": "What survives a power loss depends on the file system and device below the system calls; only the order of the calls is decided statically (C06).",
    "N03": "Whether content matches its SHA-1 is a runtime quantity that the library does not compute when reading; there is no code path to analyse.",
    "N04": "Linearisability against other processes that repack concurrently quantifies over file-system histories outside this code; the steps the code takes itself are decided (C05, C09, C10, C18).",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks = [dict(property=i, quick_cmd=f"./check.sh {i} quick", thorough_cmd=f"./check.sh {i} thorough", technique=T[i][0], level="proof", level_note=BASE + T[i][1])
          for i in ids if i in T]
na = [dict(property=i, reason=NA.get(i, "Not claimed: no check of this family has been completed for it yet.")) for i in ids if i not in T]
json.dump(dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na,
               notes="No hooks in /repo: the analysis reads the compiler's MIR of the unmodified crate."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed", len(na), "not")
