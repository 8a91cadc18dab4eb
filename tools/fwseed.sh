#!/bin/bash
# tools/fwseed.sh <id>: support files for a planted bug in the modelling framework (seeded/<id>/demo.cpp defines int test())
V=$(cd "$(dirname "$0")/.." && pwd); d=$V/seeded/$1
mkdir -p $d
tar -C $V --sort=name --mtime=2026-01-01 --owner=0 --group=0 -cJf $d/support.tar.xz hpxmock -C $V/harness fw.hpp mc.hpp
cat > $d/demo.sh <<'Y'
#!/bin/bash
# Runs the framework's code on a stand-in for HPX, which is not available here
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
cd "$tmp" || exit 99
tar xJf "$here/support.tar.xz" || exit 99
S=/repo/source
python3 - <<Z || exit 99
import os
o = "lue/framework/partitioned_route/server/serial_route_partition.hpp"
t = open("$S/framework/partitioned_route/include/" + o + ".in").read()
i, j = t.index("{%"), t.rindex("%}") + 2
os.makedirs(os.path.dirname("gen/" + o))
open("gen/" + o, "w").write(t[:i] + t[j:])
Z
I="-I. -Ihpxmock -Igen $(for p in core partitioned_array partitioned_route algorithm; do echo -I$S/framework/$p/include; done) -I$S/shared/include"
g++ -std=c++23 -O0 -g0 -UNDEBUG -w $I "$here/demo.cpp" $(grep -l first_n "$here/demo.cpp" >/dev/null && find $S/framework/algorithm -name cell_counter.cpp) -o demo -lboost_context || exit 99
timeout 200 ./demo
Y
