#!/bin/bash
# mkseed.sh ID PROP NEEDS BREAKS < demo.cpp   -- edits were made in the scratch copy /tmp/seedrepo
d=/verif/seeded/$1; mkdir -p $d; cd /tmp/seedrepo && git diff > $d/patch.diff && git checkout -q -- .
cat > $d/demo.cpp
cat > $d/demo.sh <<'X'
#!/bin/bash
# compiles demo.cpp against the library built from the working tree; all scratch files in a temporary directory
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++17 -O1 -w -mavx2 -mfma -fopenmp -DENABLE_AVX=1 -DINSTRUCTION_SET=2 -DHAVE_AVX2_INSTRUCTIONS -DENABLE_FITTING=OFF -I"$PWD" -I"$PWD/_build" "$D/demo.cpp" -o "$T/demo" "$PWD/_build/lib/libAmpGen.so" -Wl,-rpath,"$PWD/_build/lib" -Wl,--unresolved-symbols=ignore-in-shared-libs -Wl,-z,lazy -ldl || exit 0
cd "$T" && ./demo
X
python3 - "$@" <<'Y'
import sys,json
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
Y
