#!/bin/bash
# mkseed.sh <id> <property> <pkg> <needs> <what> : takes the edits in the scratch worktree /tmp/sw as a planted bug,
# with /tmp/demo_test.go as its demonstration in package <pkg>; confirms demo and check; resets the worktree.
. /opt/vp/env.sh
id=$1 prop=$2 pkg=$3 needs=$4 what=$5; d=/verif/seeded/$id; mkdir -p "$d"
git -C /tmp/sw diff > "$d/patch.diff"
[ -s "$d/patch.diff" ] || { echo "empty patch"; exit 2; }
[ -f /tmp/demo_test.go ] && mv /tmp/demo_test.go "$d/demo_test.go"
cat > "$d/demo.sh" <<X
#!/bin/bash
# runs the demonstration beside this script as a test of package $pkg; cwd is the repository
. /opt/vp/env.sh 2>/dev/null
here=\$(cd "\$(dirname "\$0")" && pwd)
t=\$(mktemp -d) || exit 2
trap 'rm -rf "\$t"' EXIT
printf '{"Replace":{"%s/$pkg/zz_demo_test.go":"%s/demo_test.go"}}' "\$PWD" "\$here" > "\$t/o.json"
go test -vet=off -count=1 -timeout 240s ${DEMOFLAGS} -overlay "\$t/o.json" -run '^TestZZDemo\$' ./$pkg
X
python3 - "$d/meta.json" "$prop" "$needs" "$what" <<'P'
import json,sys
json.dump({"property":sys.argv[2],"needs":sys.argv[3],"what_it_breaks":sys.argv[4]},open(sys.argv[1],"w"),indent=1)
P
chmod +x "$d/demo.sh"
(cd /tmp/sw && go build ./... ) || { echo "NO BUILD"; exit 2; }
for i in 1 2 3; do (cd /repo && bash "$d/demo.sh" >/tmp/demo.$id.base 2>&1) && echo "demo unchanged: pass" || { echo "demo unchanged: FAIL"; grep -v INFO /tmp/demo.$id.base | tail -15; }; 
(cd /tmp/sw && bash "$d/demo.sh" >/tmp/demo.$id.patched 2>&1) && echo "demo patched: PASSES (bad)" || echo "demo patched: fails ($(grep -hm1 -E 'zz_demo|demo_test.go|panic:|DATA RACE|fatal' /tmp/demo.$id.patched | cut -c1-160))"; done
[ -n "$NOCHECK" ] || VERIF_REPO=/tmp/sw VERIF_NOEVIDENCE=1 bash /verif/run.sh "$prop" 2>/dev/null | cut -c1-400 | tail -3
git -C /tmp/sw checkout -q -- .
