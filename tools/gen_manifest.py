#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
M = "seeded random schema generation with structural shrinking; oracle: "
T = {
 "C01": M + "byte equality under repetition, reordering, threads, processes and histories",
 "C02": M + "validity predicate for Avro schemas",
 "C03": M + "validity predicate for BigQuery schemas",
 "C04": M + "differential comparison of the two outputs as one column tree",
 "C05": M + "random conforming documents through a reference encoder for both formats",
 "C06": M + "reference model of nullability",
 "C07": M + "reference model of casting, and locality relation between two schemas",
 "C08": M + "metamorphic relation between the three strategies, and reference model of dropping",
 "C09": M + "reference model of names, and relation over colliding names",
 "C10": M + "metamorphic relation with and without the option",
 "C11": M + "metamorphic relation: the option equals renaming the properties by hand",
 "C12": "exhaustive short strings and random long ones in both builds; oracle: word-splitting reference model",
 "C13": M + "algebraic laws (order, repetition, nesting, null, single variant) and reference join",
 "C14": M + "reference model of maps and metamorphic relations",
 "C15": M + "reference model of repetition, and wrapping relation",
 "C16": M + "reference model of tuples, and inertness relation",
 "C17": M + "reference model of paths, and relation with and without the pattern",
 "C18": M + "strip/annotate relation and reference model of descriptions",
 "C19": "random command lines, schemas and inputs run through the real executable; oracle: the library call",
 "C20": "random and systematic malformed JSON, deep nesting through the executable; oracle: outcome classification by a reference model, probes after rejection",
 "C21": M + "reference model of types, embedding relation and sibling independence",
 "C22": "random towers and crowds of constructs at two sizes; oracle: growth of bytes allocated and processor time",
 "C23": "random schemas and conforming documents through the real helper script; oracle: reference encoder and the Avro rules",
 "C25": "random schemas and options read from JSON text in random member order; oracle: the same options set in code",
 "C24": "random schema trees, flags and leftovers through the real scripts in a scratch project; oracle: the library call per file",
}
note = ("Evidence over the generated cases only (counts, classes and samples in the evidence file); nothing is proved beyond them. "
        "Trusts the reference model and predicates in harness/src, serde_json and the Rust toolchain.")
extra = {
 "C12": " The exhaustive alphabets are complete up to the stated length.",
 "C15": " One known finding: arrays of maps in BigQuery.",
 "C19": " The executable is compiled from /repo/src/main.rs by the harness crate.",
 "C23": " The avro package is not installed: a stand-in records the data and checks it against the Avro rules.",
 "C24": " cargo and the avro package are stand-ins: the tool is compiled by the harness from /repo/src/main.rs.",
}
checks = [dict(property=i, quick_cmd="./check.sh " + i, thorough_cmd="./check.sh " + i, evidence_file="evidence/%s.json" % i,
               technique=T[i], level="exploration", level_note=note + extra.get(i, "")) for i in sorted(T)]
m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=[],
         notes="No hooks in /repo are needed. The tier is taken from VERIF_TIER, all random choices from VERIF_SEED. ./replay.sh FILE repeats a replay file.")
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1); f.write("\n")
