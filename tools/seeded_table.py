#!/usr/bin/env python3
"""Rewrites the list of planted bugs in DESIGN.md from seeded/*/meta.json."""
import glob, json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
MISSED = {
    "close-any-nested": "includes with symbolic text around", "scratch-after-error": "strings after failed strings", "reserved-any-case": "near-reserved names",
    "dec-19-digits": "60 to 120 digits", "long-name-cut": "long names of wide characters", "short-read-end": "short transfers of other lengths", "cycle-by-spelling": "graphs over directories",
    "ids-block": "many containers in a thread", "parent-hops": "long chains of parents", "indent-table": "values deeper than texts",
    "write-same-length": "old files of the same length, times of files", "mtime-cache": "old files of the same length, times of files", "tup-eq-zip": "long containers that differ in one place",
    "include-key-name": "several files of similar names", "include-key-stem": "several files of similar names", "include-case": "several files of similar names", "path-backslash": "any character in a path",
    "arr-file-any": "sequences in files", "dec-len-u8": "long exact numbers", "frac-int-div": "long exact numbers", "frac-display-fixed": "long exact numbers", "str-include-cap": "long included files",
    "depth-after-error": "many failures", "get-ignore-case": "names that differ in case", "has-any-first": "types in long tuples", "global-depth-reset": "globals nested in objects",
    "include-two-tokens": "several tokens and paths in an include", "canon-memo": "links that lead elsewhere later", "contains-bsearch": "wide Objs in order", "usize-index-wrap": "indices of sequences of one",
    "depth-tup-file": "includes of every type at depth", "file-trailing-nul": "arbitrary text files in C14", "caret-after-fields": "parents among fields", "priority-run": "operators after long runs", "str-plus-self": "any character in operands",
    "tryfrom-first-type": "the conversions of Arr and Tup", "default-shared": "all constructors of empty containers", "include-error-file": "graphs in C15", "empty-arr-plus": "a long Arr next to itself",
}
by = {}
for f in sorted(glob.glob(f"{ROOT}/seeded/*/meta.json")):
    i = f.split("/")[-2]
    by.setdefault(json.load(open(f))["property"], []).append(i + ("* [" + MISSED[i] + "]" if i in MISSED else ""))
rows = "\n".join(f"- {p}: {', '.join(by[p])}" for p in sorted(by)) + "\n"
d = open(f"{ROOT}/DESIGN.md").read()
a = d.index("<!-- planted -->") if "<!-- planted -->" in d else None
b = d.index("## 7.")
d = d[:a] + "<!-- planted -->\n" + rows + "\n" + d[b:]
open(f"{ROOT}/DESIGN.md", "w").write(d)
