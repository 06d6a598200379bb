#!/bin/bash
# plant.sh new ID PROPERTY PKG NEEDS BREAKS : turns the changes in the scratch copy /tmp/w into seeded/ID (demo test from /tmp/demo_test.go)
# plant.sh check ID : confirms seeded/ID in a fresh scratch copy: applies, builds, stable tests pass, demo passes before and fails after
set -u
S=/verif/seeded
case $1 in
new)
  id=$2; d=$S/$id; mkdir -p $d
  git -C /tmp/w diff > $d/patch.diff
  git -C /tmp/w checkout -q -- .
  cp /tmp/demo_test.go $d/demo_test.go.txt
  cat > $d/demo.sh <<E2
#!/bin/bash
# runs demo_test.go.txt as a test of package $4 of the tree in the current directory
here=\$(cd "\$(dirname "\$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
t=\$(mktemp -d) || exit 3
trap 'rm -rf "\$t"' EXIT
cp "\$here/demo_test.go.txt" "\$t/demo_test.go"
echo "{\"Replace\":{\"\$PWD/$4/zz_demo_test.go\":\"\$t/demo_test.go\"}}" > "\$t/o.json"
go test -vet=off -count=1 -timeout 250s -overlay "\$t/o.json" -run '^TestDemo' ./$4
E2
  chmod +x $d/demo.sh
  python3 - "$3" "$5" "$6" > $d/meta.json <<'P'
import json,sys
print(json.dumps({"property":sys.argv[1],"needs":sys.argv[2],"what_it_breaks":sys.argv[3]},indent=1))
P
  exec $0 check $id;;
check)
  id=$2; d=$S/$id; t=/tmp/pl_$id; rm -rf $t; cp -a /repo $t; cd $t; git checkout -q -- .
  . /opt/vp/env.sh
  mkdir /tmp/dm_$id; cp $d/demo* /tmp/dm_$id/
  bash /tmp/dm_$id/demo.sh >/tmp/dm_$id/o1 2>&1; a=$?
  git apply $d/patch.diff || echo "PATCH DOES NOT APPLY"
  go build ./... || echo "DOES NOT BUILD"
  bash /tmp/dm_$id/demo.sh >/tmp/dm_$id/o2 2>&1; b=$?
  timeout 200 go test -count=1 ./... 2>&1 | grep -v "no test files\|^ok" | head -20
  echo "$id: clean demo exit $a (want 0), patched demo exit $b (want nonzero)"
  [ $a = 0 ] || tail -20 /tmp/dm_$id/o1
  grep -h "zz_demo\|Error\|panic" /tmp/dm_$id/o2 | head -3
  rm -rf /tmp/dm_$id $t;;
esac
