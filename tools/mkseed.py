"""tools/mkseed.py: helper to write seeded/<id>/ from (file, old, new) edits.
usage: from mkseed import seed"""
import os, subprocess, json, shutil
def seed(id, prop, needs, breaks, edits, demo_cpp, demo_flags='', runs=None):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    for f, old, new in edits:
        p = '/repo/' + f
        s = open(p).read()
        assert s.count(old) == 1, (id, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
    subprocess.run(['git', '-C', '/repo', 'checkout', '--', '.'])
    open(d + '/patch.diff', 'w').write(diff)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.cpp', 'w').write(demo_cpp)
    open(d + '/demo.sh', 'w').write('''#!/bin/bash
# exit 0 when the property holds for the demonstrated input
H=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
R=$(pwd)
g++ -std=c++17 -O1 -w -include algorithm -DNDEBUG %s -I "$R" -I "$R/fp_to_chars" "$H/demo.cpp" %s -o "$T/demo" || exit 3
timeout 120 "$T/demo"
''' % (demo_flags, runs or ''))
