#!/usr/bin/env python3
"""Template names in the order of harness/src/templates.rs."""
import os, re
def names(root):
    s = open(os.path.join(root, "harness/src/templates.rs"), encoding="utf-8").read()
    return re.findall(r'^    \("([a-z0-9_]+)", ', s, re.M)
