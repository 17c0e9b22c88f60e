#!/usr/bin/env python3
"""Writes the table of planted bugs into DESIGN.md (an aid for editing; no check uses it)."""
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main():
    rows = []
    for m in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        d = json.load(open(m))
        rows.append("| %s | %s | %s | %s |\n" % (os.path.basename(os.path.dirname(m)), d["property"], d["what_it_breaks"], d["needs"]))
    path = os.path.join(ROOT, "DESIGN.md")
    s = open(path).read()
    a = s.index("## Planted bugs\n")
    b = s.find("\n## ", a)
    text = ("## Planted bugs\n\nEach bug in `seeded/` compiles, passes the repository's tests, and was caught by the check of the property it "
            "names (second column) in its quick tier.\n\n| bug | caught by | what it breaks | needs |\n|---|---|---|---|\n" + "".join(rows))
    open(path, "w").write(s[:a] + text + (s[b:] if b >= 0 else ""))


main()
