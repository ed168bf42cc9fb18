#!/bin/bash
# Development aid: tools/seed.sh ID... : tries planted bugs in a copy of /repo that is bind-mounted over /repo
# in a mount namespace of its own: builds, runs the tests, the demonstration, and the check of the property.
# Env: NOTEST=1 skips build and tests (demo and check only).
WT=/tmp/wt/repo
[ -d $WT ] || { mkdir -p /tmp/wt; cp -a /repo /tmp/wt/; }
if [ -z "$IN_NS" ]; then IN_NS=1 exec unshare -Urm bash -c 'mount --bind '$WT' /repo && exec bash "$0" "$@"' "$0" "$@"; fi
cd /repo || exit 1
export VERIF_SEED=1 VERIF_TIER=quick
for id in "$@"; do
	d=/verif/seeded/$id
	git checkout -q -- . ; git -C /repo log -1 --format=%h
	prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
	timeout 300 bash $d/demo.sh >/tmp/seed.$id.clean 2>&1; echo "$id demo clean: $? (want 0)"
	git apply $d/patch.diff || { echo "$id: patch does not apply"; continue; }
	if [ -z "$NOTEST" ]; then
		bash /opt/vp/test.sh /tmp/seed.$id.json >/tmp/seed.$id.build 2>&1
		python3 - $id <<'P'
import json, sys
b = json.load(open('/opt/vp/BASELINE.json')); o = json.load(open('/tmp/seed.%s.json' % sys.argv[1]))
print(sys.argv[1], "stable tests missing:", sorted(set(b['stable']) - set(o['passed']))[:10])
P
	fi
	timeout 300 bash $d/demo.sh >/tmp/seed.$id.bug 2>&1; echo "$id demo patched: $? (want nonzero)"; tail -2 /tmp/seed.$id.bug
	[ -n "$NOCHECK" ] || { (cd /verif && python3 check.py $prop > /tmp/seed.$id.check 2>&1); echo "$id check $prop: $?"; grep VIOLATION /tmp/seed.$id.check | head -3; }
	git checkout -q -- .
done
