#!/bin/bash
# mkbug.sh ID PROPERTY "needs" "breaks": makes /verif/seeded/ID from the diff in the scratch copy /tmp/w/src and demo.cc in /tmp/w/demo.cc
set -e
d=/verif/seeded/$1; mkdir -p $d
git -C /tmp/w/src diff > $d/patch.diff
[ -s $d/patch.diff ]
cp /tmp/w/demo.cc $d/demo.cc
srcs="$5"
cat > $d/demo.sh <<X
#!/bin/bash
# compiles demo.cc against the sources in the current directory's cxx/ and runs it
D=\$(cd "\$(dirname "\$0")" && pwd)
T=\$(mktemp -d)
trap 'rm -rf "\$T"' EXIT
R=\$PWD
g++ -std=c++20 -O1 -w -iquote "\$R/cxx" "\$D/demo.cc" $(for s in $srcs; do printf '"$R/cxx/%s" ' $s; done) -o "\$T/demo" || exit 2
cd "\$T" && timeout 120 ./demo
X
python3 - "$@" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open("/verif/seeded/%s/meta.json"%sys.argv[1],"w"),indent=1)
P
git -C /tmp/w/src checkout -q -- .
