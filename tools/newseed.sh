#!/bin/bash
# newseed.sh ID PROPERTY NEEDS BREAKS < demo.cpp : record the edit made in /tmp/sw (a clone of /repo) as a planted bug.
# EXTRA: extra compiler arguments of the demo.  The clone is reset afterwards.
set -e
D=/verif/seeded/$1; mkdir -p "$D"
git -C /tmp/sw diff > "$D/patch.diff"; [ -s "$D/patch.diff" ]
git -C /tmp/sw checkout -q -- .
cat > "$D/demo.cpp"
cat > "$D/demo.sh" <<S
#!/bin/bash
# Run in the repository's root after the build: 0 when the guarantee holds in the cases of demo.cpp.
d=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d); trap 'rm -rf "\$t"' EXIT
g++ -std=c++17 -g -w -I. -Ieo/src -Imo/src -Imoeo/src -Iedo/src -Ismp/src -Iproblems -Ieo/src/mpi ${EXTRA} "\$d/demo.cpp" -o "\$t/demo" \\
    _build/lib/libmoeo.a _build/lib/libsmp.a _build/lib/libedoutils.a _build/lib/libeo.a _build/lib/libeoutils.a _build/lib/libes.a _build/lib/libga.a _build/lib/libcma.a _build/lib/libeoutils.a _build/lib/libeo.a -lpthread || exit 3
cd "\$t" && timeout 120 ./demo
S
python3 - "$@" > "$D/meta.json" <<'P'
import sys,json; print(json.dumps({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},indent=1))
P
echo "$1 recorded"
