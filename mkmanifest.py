#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below."""
import json, os
C = {
 "C01": ("model_checking", "explicit-state exploration of the real code: all call histories to a bound, live vs reopened vs rebuilt from tape",
         "Exhaustive within the stated call alphabets and depths (see evidence 'spaces'); says nothing about longer histories or other names."),
 "C02": ("model_checking", "explicit-state exploration of the real code against a map-based reference file system, every call of every history",
         "Exhaustive within the stated alphabets and depths; state merging in the breadth-first search ignores tape positions; error kinds are compared for not-exist, exist and permission only."),
 "C03": ("model_checking", "exhaustive enumeration on the real code: the full product of pipeline formats x levels x contents x ways of writing, read back in every way, live and rebuilt",
         "Content is enumerated by class (empty, 1, block and record boundaries, multi-block, incompressible, text), not by value; combinations the code refuses on tape drives with a documented error are outside; the tape drive is emulated."),
 "C04": ("model_checking", "explicit-state exploration of the real code: histories x record sizes x drive kinds, each state's index compared with an independent scan and fetch by position",
         "The tape drive is an emulation of st(4) (records, file marks, MT operations) behind the code's own drive interface; symlink rows are outside the alphabet."),
 "C05": ("model_checking", "explicit-state exploration of the real code: byte-prefix relation of the tape over every transition, two independent tar readers at rest",
         "Regular-file drives; moving the root through the archive interface is outside the alphabet."),
 "C06": ("model_checking", "crash-point exploration of the real code: every history x every byte at which the tape can end (or every class of byte), rebuilt, compared with the states around the cut, used further and cut again",
         "Quick sweeps every byte of fixed histories split over residues and the boundary bytes of all histories of an alphabet; regular-file tapes plus record-wise cuts of the emulated tape."),
 "C07": ("model_checking", "explicit-state exploration of the real code: every history x every prefix of its records, replayed twice and compared with a rebuild",
         "Exhaustive within the stated alphabets and depths."),
 "C08": ("model_checking", "exhaustive attacker-action exploration of the real code: every byte (thorough: bit) of signed tapes altered, every forged record of a list x every record x every place, every removal, repetition, swap and cut; what every reader accepts is compared with what was signed",
         "The attacker does not break the cryptography and has no signing key; replayed and dropped records of the writer are allowed by the property; reading with an index from before a swap of whole records is outside."),
 "C09": ("model_checking", "exhaustive enumeration on the real code: every history x encryption pipeline x call, every raw byte of the tape accounted for, the tape searched for every secret, opened with every other key, and every failing call",
         "Says that nothing readable is on the tape and that other keys open nothing; does not analyse the ciphers themselves."),
 "C10": ("model_checking", "exhaustive fault-point exploration of the real code: every event on every seam (drive, index, source, destination, write cache) of every call fails, before and after taking effect, singly, all from it on, and (thorough) in pairs; a watchdog and probe calls decide",
         "Faults are injected at the code's own interfaces; after faults on the emulated tape drive the next calls have to return only, not to succeed, as a failed append cannot be taken back there."),
 "C11": ("model_checking", "stateless model checking of the real code under a controlled scheduler: all schedules of small client programs up to a preemption bound, checked for linearizability against sequential runs of the real code, deadlock, panic and data races",
         "Schedule points are locks, drive, index and write-cache seams; goroutines are as the code starts them; internal/db (SQLite access) is not instrumented; bound on preemptions and program size stated in the evidence."),
 "C12": ("model_checking", "explicit-state exploration of the real code: all recursive calls on trees over all pairs of colliding names, plus all histories of recursive calls to a bound",
         "The archive interface's move is driven with absent targets below existing directories only; it leaves checking the target to its caller."),
 "C13": ("model_checking", "explicit-state exploration of the real code with a namespace invariant (rows = listings = lookups) in every reached state, live and rebuilt",
         "Exhaustive within the stated alphabets and depths; a link is an entry at the path where it is, its target is not required to exist."),
 "C14": ("model_checking", "explicit-state exploration of the real code against a byte-array-with-cursor reference: all operation sequences on one handle per flag combination",
         "Positioned and empty writes on append handles are outside the alphabet (the reference systems differ); Sync on read-only handles is not compared."),
 "C15": ("model_checking", "explicit-state exploration of the real code: all calls, flags and call sequences to a bound on read-only filesystems over the tapes of all histories; tape bytes and index rows compared after every call, results with a writable twin",
         "Exhaustive within the stated alphabets and depths; the twin comparison needs an index that belongs to the tape; opening a link with the create flag is not required to fail."),
 "C16": ("model_checking", "explicit-state exploration of the real code: every tape x tail state x index state x way of opening; tape bytes, tree against a from-scratch rebuild, and writes afterwards",
         "An index that belongs to another tape is outside; the tape states come from all histories of an alphabet to a bound, cut at every class of byte."),
 "C17": ("model_checking", "exhaustive enumeration and explicit-state exploration on the real code: foreign archives over trees x names x sizes x root styles x formats x endings x orders, and all follow-up call sequences to a bound, against a reference file system",
         "Archives without entries for intermediate directories, links and global PAX headers are outside; the archives are written by archive/tar."),
 "C18": ("model_checking", "exhaustive enumeration on the real code: formats x passwords x other passwords, and pairs x pairs x contents x ways of writing and reading",
         "Passwords are enumerated completely up to a length over a small alphabet plus listed ones; the large password spaces run with the libraries' scrypt cost turned down, the small ones with the real cost; says nothing about the strength of the ciphers."),
}
m = {
 "version": 1,
 "setup_cmd": "./run.sh build",
 "checks": [dict(property=k, quick_cmd="VERIF_TIER=quick ./run.sh "+k, thorough_cmd="VERIF_TIER=thorough ./run.sh "+k,
                 technique=v[1], level=v[0], level_note=v[2]) for k, v in sorted(C.items())],
 "not_applicable": [],
 "notes": "No hooks in /repo: the code's own seams (backend functions, metadata interface, write-cache factory, data source) carry faults, recording and schedule points.",
}
todo = [f"C{i:02d}" for i in range(1, 19) if f"C{i:02d}" not in C]
m["not_applicable"] = [dict(property=p, reason="check under construction") for p in todo]
json.dump(m, open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "MANIFEST.json"), "w"), indent=1)
