#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "symbolic execution of the crate's compiled LLVM IR, assertions decided by Z3 (cvc5 second opinion), counterexamples replayed natively"
HOW = {
    "C01": "symbolic texts, byte for byte, through the real parser and writer; machine-level violations (panic, bad memory access, stack, step limit) and long chains",
    "C02": "parse, write, parse, write on symbolic documents",
    "C03": "symbolic values of every type built through the API, written or displayed and parsed again",
    "C04": "symbolic element sequences against a reference type computation",
    "C05": "symbolic pairs and triples of types against the laws, stated over an independent reference",
    "C06": "symbolic operators, operands and signs against exact reference arithmetic",
    "C07": "symbolic digits, points and underscores at symbolic positions against an exact reference reading",
    "C08": "symbolic string contents and escapes against a reference reading",
    "C09": "symbolic names and definition sequences against a reference scope resolution",
    "C10": "symbolic parent chains and field layouts, through API and text, against a reference lookup",
    "C11": "symbolic dot chains, names and indices against a reference resolution",
    "C12": "symbolic file contents in a modelled file system, reached through the real include code",
    "C13": "symbolic include graphs in a modelled file system",
    "C14": "symbolic faults and short transfers at every modelled system call",
    "C15": "symbolic erroneous documents; line and column against a reference position",
    "C16": "symbolic whitespace and comments at every token boundary against the reference parser",
    "C17": "symbolic values in pairs and triples against structural reference equality",
    "C18": "symbolic container graphs with a symbolic id counter; identity against a reference",
    "C19": "symbolic names, and every Unicode scalar value by symbolic blocks, through API and parser",
    "C20": "symbolic values, all getters, against a reference",
    "C21": "nesting from 1 to past the limit with symbolic kinds of bracket at every level; stack depth measured",
    "C22": "symbolic documents against an independent reference parser written from the README grammar",
    "C23": "symbolic containers through constructors, iterators and macros against what was put in",
    "C24": "symbolic schedules at every shared access of two to four threads, with a symbolic id counter",
    "C25": "symbolic erroneous documents and include trees; what the message names against the reference",
    "C26": "symbolic documents before and after others, files rewritten in between, faults that pass, and threads that parse under symbolic schedules, against a reference without state",
    "C27": "symbolic documents, values and include trees used and dropped in rounds; live heap blocks and descriptors of the symbolic machine compared",
}
props = [json.loads(l) for l in open(f"{ROOT}/properties.jsonl", encoding="utf-8")]
assert [p["id"] for p in props] == sorted(HOW), "properties and HOW differ"
NOTE = ("Holds for every value of the symbolic variables in the jobs listed in tools/jobs.py (bounds per job in the evidence file and DESIGN.md); larger texts, values, graphs and schedules are outside. "
        "Trusted: rustc's IR of the harness and crate at opt-level 1 standing for the shipped build, the executor (checked against native runs of the same paths on every run), its models of libc, and Z3 where cvc5 did not repeat the query.")
m = dict(
    version=1, setup_cmd="python3 check.py --setup",
    checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']} quick", thorough_cmd=f"python3 check.py {p['id']} thorough", evidence_file=f"evidence/{p['id']}.json",
                 technique=TECH, level="model_checking", level_note=f"Bounded symbolic model checking of the real code: {HOW[p['id']]}. {NOTE}") for p in props],
    not_applicable=[],
    notes="No hooks in /repo: the harness crate uses only the public API, and file system, threads and faults are modelled below libc. Defects found: eight repaired ('fix:' commits) and one recorded, see known-findings.txt. One command decides one property: check.py; its work lists are in tools/jobs.py, its executor in rsym/, its reference and harnesses in harness/.")
with open(f"{ROOT}/MANIFEST.json", "w", encoding="utf-8") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
