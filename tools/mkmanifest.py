#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json: one entry for every property of properties.jsonl."""
import json
import pathlib

VERIF = pathlib.Path(__file__).resolve().parent.parent

T = "TLA+ model checked with TLC; "
TECH = {
    "replay": T + "cases enumerated by TLC replayed on the code, recorded behaviours validated by TLC",
    "trace": T + "behaviours recorded from the code (seeded random cases) validated by TLC",
    "crash": T + "every crash point/cut of recorded files on the code, outcomes validated by TLC",
    "threads": T + "TLC-simulated sessions with bursts of concurrent calls replayed on the code under chosen schedules, recorded sessions validated by TLC in the model's state",
    "session": T + "TLC-simulated sessions replayed on the code, recorded sessions validated by TLC in the model's state",
}
NOTE = {
    "C01": ("replay", "Spec: file encoding and decoding as inverse functions, exhaustive for small values. Code: all small combinations of kinds plus random values written, loaded (read and mmap) and compared with the spec's value; random ones are a sample."),
    "C02": ("replay", "Spec gives every byte of the file (padding content open). Code: every written file compared byte by byte; a sample beyond the enumerated combinations."),
    "C03": ("replay", "Spec: chunk search by length fields. Code: all loaders on library-made and independently built files; a sample beyond the enumerated combinations."),
    "C04": ("crash", "Spec: writer that can stop after any byte, and any reader; exhaustive for small values. Code: every prefix of every generated file through every loader (exhaustive per file), and writes that really fail (file size limit)."),
    "C05": ("trace", "Spec: a reference decoder that accepts or rejects bytes. Code: field-wise and byte-wise mutations judged by the decoder; cases the format leaves open (listed in DESIGN.md) accept either outcome."),
    "C06": ("replay", "Spec: n-gram definition. Code: all strings up to length 4 over two characters for all small ranges, plus random Unicode strings."),
    "C07": ("trace", "Spec: FNV-1a in 16-bit limb arithmetic. Code: random strings, exponents, bucket counts and offsets compared with the spec's hash; a sample."),
    "C08": ("replay", "Spec: table validity and lookup. Code: all small n-gram lists and tables, plus random ones."),
    "C09": ("replay", "Spec: vocabulary lookup. Code: all word lists of up to three of four words, plus random vocabularies and queries."),
    "C10": ("replay", "Spec: lookup semantics, sums and norms in exact integer arithmetic (14-bit fixed point for normalized vectors, tolerance 3/16384). Code: all kinds of storage and vocabulary; integer-valued vectors for n-gram sums, arbitrary bits for known words."),
    "C11": ("session", "Spec: session state machine; implementation-shaped checks refine it. Code: all 3456 constructions and all assignments of a pool of parts, and random sessions."),
    "C12": ("session", "Spec: heap-level model with aliasing, exhaustive for small heaps. Code: random sessions over three embeddings and two files, everything observable compared after every call; a sample of histories."),
    "C13": ("trace", "Spec: ranking clauses, selection algorithm with arbitrary tie-breaking checked against them exhaustively for small sizes. Code: random embeddings with integer vectors; scores exact or within fixed-point tolerance."),
    "C14": ("trace", "As C13, for b - a + c; words answered through n-grams in fixed point with tolerance."),
    "C15": ("replay", "Spec: reconstruction and index expressions. Code: every slice of up to four rows, plus random index expressions; vectors exact (integers with projection, correctly rounded products with norms)."),
    "C16": ("replay", "Spec: index expressions. Code: every slice of up to four rows, plus random index expressions on arrays of any bits."),
    "C17": ("trace", "Spec: constructive conversion proven to keep every answer for small vocabularies. Code: random hashed embeddings, converted, written and loaded."),
    "C18": ("trace", "Spec: writer bytes, reference reader, every cut of small files. Code: random embeddings and foreign files, every cut of some; norms and directions within float tolerance."),
    "C19": ("trace", "Spec: line format, decimal numerals read exactly and rounded to float32. Code: random embeddings and foreign files, malformed lines."),
    "C20": ("trace", "Spec: fastText model file, mean of rows. Code: random model files (also truncated, supervised, pruned, quantized), write-and-load round trips within float tolerance."),
    "C21": ("replay", "Spec: UTF-8 decoder with maximal-subpart replacement. Code: all byte strings of up to three representative bytes, plus random mixtures, in all four formats."),
    "C22": ("trace", "Spec: what each tool writes in terms of the library's specified results. Code: the tools' main functions in child processes with real files."),
    "C23": ("crash", "Spec: buffered writer on a destination of any capacity, exhaustive for small sizes; a variant that drops the last flush's error is refuted. Code: every capacity for small outputs, boundary and random ones for larger ones (file size limits, /dev/full), all formats, components and tools."),
    "C24": ("trace", "Spec: names, descriptors, contents and mappings, exhaustive for small file systems; a variant that overwrites in place is refuted. Code: every loader and writer x nine ways of naming a file x previous contents; a sample of names and values."),
    "C25": ("threads", "Spec: calls with own temporaries interleaved step by step (shared scratch and unguarded cache variants are refuted); non-conflicting operations of the session commute. Code: bursts of two to four calls under seeded line- and bytecode-level schedules (one thread at a time, switched at every traced point the schedule picks) and free-running threads; a sample of schedules."),
}
TRUST = " Trusted: TLC, the recording harness (tags results, does not judge), CPython, numpy, toml."


def main():
    props = [json.loads(l) for l in open(VERIF / "properties.jsonl")]
    checks = []
    for p in props:
        k, note = NOTE[p["id"]]
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py " + p["id"],
                       "thorough_cmd": "VERIF_TIER=thorough python3 run.py " + p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": TECH[k], "level": "model_checking", "level_note": note + TRUST})
    m = {"version": 1, "setup_cmd": "python3 run.py --build", "checks": checks, "not_applicable": [],
         "notes": "No hooks: every observation goes through the public API and files, so MANIFEST has no hooks entry. "
                  "known_findings.txt lists the defects repaired in /repo."}
    with open(VERIF / "MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
