#!/bin/bash
# mkseed.sh ID PROPERTY NEEDS WHAT: keeps /repo's current diff as a planted bug.
# The demonstration program is read from /tmp/scratch/main.go. Verifies that the
# change passes the test suite, that the demo tells the two trees apart, and
# restores /repo.
set -e
D="$(cd "$(dirname "$0")/../seeded" && pwd)/$1"
mkdir -p "$D"
git -C /repo diff > "$D/patch.diff"
[ -s "$D/patch.diff" ] || { echo "no diff"; exit 1; }
cp /tmp/scratch/main.go "$D/main.go"
cat > "$D/demo.sh" <<'X'
#!/bin/bash
# Builds and runs main.go (next to this script) as part of the repository in the
# current directory; exits nonzero when the property is broken.
D="$(cd "$(dirname "$0")" && pwd)"
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
export GOFLAGS=-mod=readonly GOPROXY=off
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$D" > "$W/overlay.json"
go build -overlay "$W/overlay.json" -o "$W/demo" ./zz_demo || exit 3
cd "$W" && ./demo
X
chmod +x "$D/demo.sh"
python3 - "$D" "$2" "$3" "$4" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1]+"/meta.json","w"),indent=1)
P
cd /repo
bash /opt/vp/build.sh >/dev/null 2>&1 || { echo BUILD FAILS; git checkout -- .; exit 1; }
bash /opt/vp/test.sh /tmp/scratch/t.json 2>&1 | tail -1
echo "--- with patch:"; bash "$D/demo.sh" && echo "DEMO DID NOT FAIL"
git checkout -- .
echo "--- without:"; bash "$D/demo.sh" && echo "demo ok on unchanged tree"
git status --short
