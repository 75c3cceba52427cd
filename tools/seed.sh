#!/bin/bash
# seed.sh ID PROP "needs" "what_it_breaks" -- takes the uncommitted change in /repo and /tmp/seed/demo.mts, verifies and stores it
ID=$1; PROP=$2; D=/verif/seeded/$ID
set -u
cd /repo; git diff --quiet && { echo "no change in /repo"; exit 1; }
mkdir -p $D; git diff > $D/patch.diff; cp /tmp/seed/demo.* $D/ 
[ -f $D/demo.sh ] || cat > $D/demo.sh <<'S'
#!/bin/bash
# run with cwd /repo after the build; exit 0 when the property holds
D=$(cd "$(dirname "$0")" && pwd); H=$(mktemp -d); trap 'rm -rf "$H"' EXIT
HOME=$H TMPDIR=$H timeout 120 node --import tsx --no-warnings "$D/demo.mts"
S
chmod +x $D/demo.sh
python3 - "$@" <<'P'
import json,sys
i,p,n,w=sys.argv[1:5]; json.dump({"property":p,"needs":n,"what_it_breaks":w},open(f'/verif/seeded/{i}/meta.json','w'),indent=1)
P
if [ "${NOTEST:-}" = "" ]; then bash /tmp/tst.sh | tail -2; else bash /opt/vp/build.sh > /tmp/t/build.log 2>&1 || { tail -5 /tmp/t/build.log; echo BUILDFAIL; }; fi
bash $D/demo.sh > /tmp/t/demo1.log 2>&1; echo "demo with patch: $? (want nonzero)"; tail -3 /tmp/t/demo1.log
(cd /verif; bin/check $PROP > /tmp/t/chk.log 2>&1; echo "check exit $?"; tail -1 /tmp/t/chk.log | cut -c1-300)
git checkout -q -- .
bash $D/demo.sh > /tmp/t/demo2.log 2>&1; echo "demo clean: $? (want 0)"; tail -3 /tmp/t/demo2.log
