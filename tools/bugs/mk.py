"""Generates /verif/seeded/<id>/ from the definitions in this folder: python3 tools/bugs/mk.py [id...]"""
import glob
import json
import os
import shutil
import subprocess
import sys
import tempfile
import textwrap

HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(os.path.dirname(HERE)), 'seeded')
BUGS = []


def bug(id, prop, edits, needs, breaks, demo):
	"""edits: [(file, old, new)], every old must occur exactly once (or give a 4th element: which one)"""
	BUGS.append((id, prop, edits, needs, breaks, textwrap.dedent(demo).lstrip('\n')))


DEMO_SH = '''#!/bin/bash
# exit 0: the property holds; anything else: it is broken
here=$(cd "$(dirname "$0")" && pwd)
export LC_ALL=C.UTF-8 PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1 PYTHONPATH="$PWD"
scratch=$(mktemp -d)
trap '/bin/rm -rf "$scratch"' EXIT
export SCRATCH="$scratch"
timeout 200 /opt/venv/bin/python -W ignore "$here/demo.py"
'''


def build(b):
	id, prop, edits, needs, breaks, demo = b
	d = os.path.join(OUT, id)
	shutil.rmtree(d, ignore_errors=True)
	os.makedirs(d)
	s = tempfile.mkdtemp()
	try:
		r = os.path.join(s, 'r')
		subprocess.check_call(['git', 'clone', '-q', os.environ.get('SRC', '/repo'), r])
		for e in edits:
			f, old, new = e[:3]
			p = os.path.join(r, f)
			t = open(p, newline='').read()
			n = t.count(old)
			assert n == 1 or (len(e) == 4 and n > e[3]), (id, f, n, old)
			if n == 1:
				t = t.replace(old, new)
			else:
				i = -1
				for _ in range(e[3] + 1):
					i = t.index(old, i + 1)
				t = t[:i] + new + t[i + len(old):]
			open(p, 'w', newline='').write(t)
		diff = subprocess.check_output(['git', '-C', r, 'diff'])
		open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
	finally:
		shutil.rmtree(s)
	open(os.path.join(d, 'demo.sh'), 'w').write(DEMO_SH)
	open(os.path.join(d, 'demo.py'), 'w').write(demo)
	json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(os.path.join(d, 'meta.json'), 'w'), indent=1)


if __name__ == '__main__':
	sys.modules['mk'] = sys.modules['__main__']
	sys.path.insert(0, HERE)
	for f in sorted(glob.glob(os.path.join(HERE, 'b_*.py'))):
		__import__(os.path.basename(f)[:-3])
	for b in BUGS:
		if not sys.argv[1:] or b[0] in sys.argv[1:]:
			build(b)
			print('built', b[0])
