#!/usr/bin/env python3
"""Regenerates harness/props/registry.go, the list of harness functions, and
harness/props/words.go, the string constants of the code under test."""
import os, re, glob, json
d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "harness", "props")
names = []
for f in sorted(glob.glob(d + "/*.go")):
    if f.endswith("registry.go"):
        continue
    names += re.findall(r"^func (H_\w+)\(\)", open(f).read(), re.M)
names.sort()
with open(d + "/registry.go", "w") as o:
    o.write("// Code generated by tools/genreg.py; DO NOT EDIT.\n\npackage props\n\n// Registry maps harness names to functions for native replay.\nvar Registry = map[string]func(){\n")
    for n in names:
        o.write('\t"%s": %s,\n' % (n, n))
    o.write("}\n")

words = set()
for f in sorted(glob.glob("/repo/mpd/*.go")):
    if f.endswith("_test.go"):
        continue
    src = re.sub(r"`[^`]*`", "", open(f).read())
    src = re.sub(r"import \([^)]*\)", "", src)
    src = re.sub(r"//[^\n]*", lambda m: m.group(0) if '"' in m.group(0) else "", src)
    for m in re.finditer(r'"((?:[^"\\\n]|\\.)*)"', src):
        w = m.group(1)
        if w and "\\" not in w and "%" not in w and all(32 <= ord(c) < 127 for c in w):
            words.add(w)
with open(d + "/words.go", "w") as o:
    o.write("// Code generated by tools/genreg.py; DO NOT EDIT.\n\npackage props\n\n// words are the string constants in /repo/mpd.\nvar words = []string{\n")
    for w in sorted(words):
        o.write("\t%s,\n" % json.dumps(w))
    o.write("}\n")
