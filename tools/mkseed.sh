#!/bin/bash
# mkseed.sh ID PROPERTY "needs" "what it breaks" < demo_test.go   (the change is in the worktree /tmp/sw)
# Files the change of /tmp/sw under /verif/seeded/ID after checking that the demonstration tells the trees apart.
# PKG=dir (below scouterx) places the demonstration in that package instead of a package of its own.
set -e
ID=$1 PROP=$2 NEEDS=$3 BREAKS=$4
D=/verif/seeded/$ID; mkdir -p "$D"
git -C /tmp/sw diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no change in /tmp/sw"; exit 1; }
cat > "$D/demo_test.go.txt"
cat > "$D/demo.sh" <<X
#!/bin/bash
# Exit 0 when the property holds for the demonstrated case. Run in the repository.
D=\$(cd "\$(dirname "\$0")" && pwd)
export PATH=/opt/veriftools/go1.27.3/bin:\$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=0 GOFLAGS=
T=\$(mktemp -d) || exit 2
trap 'rm -rf "\$T"' EXIT
cp "\$D/demo_test.go.txt" "\$T/demo_test.go"
export SCOUTER_DEMO_DIR="\$T"
printf '{"Replace":{"%s/scouterx/${PKG:-zzdemo}/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$T" > "\$T/overlay.json"
go test -overlay "\$T/overlay.json" -vet=off -c -o "\$T/demo.test" ./scouterx/${PKG:-zzdemo} || exit 2
cd "\$T" && ./demo.test -test.run 'TestZZDemo' -test.timeout 120s
X
[ -z "$MODFILE" ] || sed -i 's|^go test|cp go.mod "$T/x.mod"; cp go.sum "$T/x.sum"; go mod edit -require=github.com/stretchr/testify@v1.5.1 "$T/x.mod"; go test -mod=mod -modfile "$T/x.mod"|' "$D/demo.sh"
chmod +x "$D/demo.sh"
python3 - "$D/meta.json" "$PROP" "$NEEDS" "$BREAKS" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
export PATH=/opt/veriftools/go1.27.3/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off CGO_ENABLED=0
[ -n "$KEEP" ] || (cd /tmp/sw && go build ./... ) || { echo "does not build"; exit 1; }
(cd /repo && "$D/demo.sh" > /tmp/seed.clean 2>&1) || { cat /tmp/seed.clean; echo "demo fails on the unchanged tree"; exit 1; }
if (cd /tmp/sw && "$D/demo.sh" > /tmp/seed.bug 2>&1); then echo "demo passes with the change"; exit 1; fi
grep -vE '^(FAIL|ok|---)' /tmp/seed.bug | head -5
git -C /tmp/sw checkout -q -- .
echo "seed $ID filed"
