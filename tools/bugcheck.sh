#!/bin/bash
# usage: tools/bugcheck.sh <bug id>... : confirm planted bugs in a scratch copy of /repo and run their checks on it
here=$(cd "$(dirname "$0")/.." && pwd)
for id in "$@"; do
	d=$here/seeded/$id
	s=$(mktemp -d /tmp/bugXXXXXX)
	git clone -q "${SRC:-/repo}" "$s/r"
	x=$(mktemp -d /tmp/bugXXXXXX); cp "$d"/* "$x"/; rm -f "$x"/patch.diff "$x"/meta.json
	(cd "$s/r" && timeout 300 bash "$x/demo.sh" >"$s/o1" 2>&1); r1=$?
	git -C "$s/r" apply "$d/patch.diff" || { echo "$id: patch does not apply"; continue; }
	(cd "$s/r" && timeout 300 bash "$x/demo.sh" >"$s/o2" 2>&1); r2=$?
	if [ -z "$NOTESTS" ]; then
		sed "s#/repo#$s/r#g; s#/opt/vp/results.py#/opt/vp/results.py#" /opt/vp/test.sh >"$s/t.sh"
		(bash "$s/t.sh" "$s/t.json" >"$s/t.out" 2>&1)
		t=$(/usr/bin/python3 - "$s/t.json" <<-'P'
			import json, sys
			d = json.load(open(sys.argv[1])); b = json.load(open('/opt/vp/BASELINE.json'))
			p = set(d['passed']); s = set(b.get('stable') or b.get('passed') or [])
			print('%d/%d' % (len(p & s), len(s)))
		P
		)
	fi
	prop=$(/usr/bin/python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
	c=-
	if [ -z "$NOCHECK" ]; then
		DST_REPO="$s/r" bash "$here/check.sh" "$prop" quick >"$s/c.out" 2>&1; c=$?
		grep -m1 VIOLATION "$s/c.out"
	fi
	echo "$id prop=$prop demo-clean=$r1 demo-bug=$r2 tests=$t check=$c"
	[ "$r1" = 0 ] || tail -5 "$s/o1"
	[ -n "$V" ] && tail -3 "$s/o2"
	/bin/rm -rf "$s" "$x"
done
