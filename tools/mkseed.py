"""mkseed.py <id> <property> <needs> <what> < edits: writes seeded/<id>/{patch.diff,meta.json}.
stdin: python list of (file, old, new)."""
import json, os, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
id, prop, needs, what = sys.argv[1:5]
edits = eval(sys.stdin.read())
d = os.path.join(V, "seeded", id)
os.makedirs(d, exist_ok=True)
a, b = "/tmp/mks/a", "/tmp/mks/b"
shutil.rmtree("/tmp/mks", ignore_errors=True)
for f in {e[0] for e in edits}:
    for r in (a, b):
        os.makedirs(os.path.dirname(os.path.join(r, f)), exist_ok=True)
        shutil.copy(os.path.join("/repo", f), os.path.join(r, f))
for f, old, new in edits:
    s = open(os.path.join(b, f)).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(os.path.join(b, f), "w").write(s.replace(old, new))
p = subprocess.run(["git", "diff", "--no-index", "--no-color", "a", "b"], cwd="/tmp/mks", stdout=subprocess.PIPE, text=True)
out = p.stdout
open(os.path.join(d, "patch.diff"), "w").write(out.replace("a/a/", "a/").replace("b/b/", "b/"))
json.dump({"property": prop, "needs": needs, "what_it_breaks": what}, open(os.path.join(d, "meta.json"), "w"), indent=1)
if not os.path.exists(os.path.join(d, "demo.sh")):
    if os.path.exists(os.path.join(d, "demo.py")):
        body = 'PYTHONPATH=/repo/_build/lib/python3.12 PYTHONDONTWRITEBYTECODE=1 /opt/lue-venv/bin/python3 "$here/demo.py"\n'
    else:
        body = '''g++ -std=c++20 -O0 -w "$here/demo.cpp" -o demo -I/usr/include/hdf5/serial \\
    -I/repo/source/shared/include -I/repo/source/data_model/hdf5/include -I/repo/source/data_model/cxx/include \\
    -I/repo/source/data_model/hl/include -I/repo/source/data_model/gdal/include -I/repo/source/quality_assurance/cxx/include \\
    -I/usr/include/gdal $(find /repo/_build/source -type d -name include -printf '-I%p ') \\
    $(for d in hdf5 cxx hl gdal; do echo "-I/repo/_build/source/data_model/$d -L/repo/_build/source/data_model/$d -Wl,-rpath,/repo/_build/source/data_model/$d"; done) \\
    LIBS -L/usr/lib/x86_64-linux-gnu/hdf5/serial -lhdf5 /repo/_build/source/shared/liblue_shared.a || exit 99
./demo
'''.replace("LIBS", os.environ.get("LIBS", "-llue_data_model -llue_hdf5"))
    open(os.path.join(d, "demo.sh"), "w").write('''#!/bin/bash
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd "$tmp" || exit 99
''' + body)
shutil.rmtree("/tmp/mks", ignore_errors=True)
