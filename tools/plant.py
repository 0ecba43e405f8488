#!/usr/bin/env python3
"""Build and confirm planted bugs.  python3 tools/plant.py DEFS.py [ID ...]

DEFS.py defines BUGS = {id: dict(property=, needs=, breaks=, edits=[(file, old, new)], demo=python source)}.
Each bug is applied in a scratch copy of /repo, the stable tests are run there, the demo is run on both trees, and the
property's quick check is run against the copy.  A confirmed bug is written to seeded/<id>/ whether or not it is caught.
"""
import json
import os
import re
import runpy
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
SH = '''#!/bin/bash
# cwd: the AMAT tree. exit 0: behaviour is right
here="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg PYTHONPATH="$PWD" OPENBLAS_NUM_THREADS=1
exec /opt/venv/bin/python -W ignore "$here/demo.py"
'''
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])


def run(cmd, **kw):
	return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def one(bid, b):
	wt = "/tmp/plant-" + bid
	shutil.rmtree(wt, ignore_errors=True)
	run(["cp", "-a", "/repo", wt])
	try:
		for e in b["edits"]:
			fn, old, new = e[0], e[-2], e[-1]
			p = os.path.join(wt, fn)
			s = open(p, newline="").read()
			if len(e) == 4:                 # first occurrence after an anchor
				k = s.index(e[1])
				if old not in s[k:]:
					return bid, "edit does not match after %r: %r" % (e[1], old[:80])
				open(p, "w", newline="").write(s[:k] + s[k:].replace(old, new, 1))
				continue
			if s.count(old) != 1:
				return bid, "edit matches %d times: %r" % (s.count(old), old[:80])
			open(p, "w", newline="").write(s.replace(old, new))
		diff = run(["git", "-C", wt, "diff"]).stdout
		sd = os.path.join("/tmp", "seed-" + bid)
		shutil.rmtree(sd, ignore_errors=True)
		os.makedirs(sd)
		open(sd + "/patch.diff", "w").write(diff)
		open(sd + "/demo.sh", "w").write(SH)
		open(sd + "/demo.py", "w").write(b["demo"].lstrip("\n"))
		os.chmod(sd + "/demo.sh", 0o755)
		json.dump(dict(property=b["property"], needs=b["needs"], what_it_breaks=b["breaks"]), open(sd + "/meta.json", "w"), indent=1)
		env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", OPENBLAS_NUM_THREADS="1", PYTHONPATH=wt)
		g = run(["bash", sd + "/demo.sh"], cwd="/repo")
		if g.returncode:
			return bid, "demo fails on the unchanged tree: " + g.stdout[-800:]
		g = run(["bash", sd + "/demo.sh"], cwd=wt)
		if not g.returncode:
			return bid, "demo passes with the bug"
		demo_msg = g.stdout.strip().splitlines()[-1:]
		t = run([PY, "-m", "pytest", "-q", "-p", "no:cacheprovider", "--timeout=300", "--ignore=tests/test_telecom.py",
				"--ignore=tests/test_visibility.py", "-x"], cwd=wt, env=env)
		if t.returncode:
			return bid, "tests fail: " + "\n".join(t.stdout.splitlines()[-6:])
		out = os.path.join(ROOT, "seeded", bid)
		shutil.rmtree(out, ignore_errors=True)
		shutil.copytree(sd, out)
		shutil.rmtree(sd)
		if os.environ.get("NOCHECK"):
			return bid, "kept (not checked) demo: %s" % demo_msg
		c = run(["bash", os.path.join(ROOT, "check.sh"), b["property"], "quick"], env=dict(os.environ, VERIF_REPO=wt))
		m = re.findall(r"VIOLATION property=(\S+)", c.stdout)
		if c.returncode == 1 and b["property"] in m:
			lines = [l for l in c.stdout.splitlines() if "/" in l and ": " in l and l.startswith(b["property"])]
			return bid, "CAUGHT demo: %s  | %s" % (demo_msg, (lines or [""])[0][:200])
		return bid, "MISSED (rc %d) demo: %s\n%s" % (c.returncode, demo_msg, c.stdout[-300:])
	finally:
		shutil.rmtree(wt, ignore_errors=True)


def main():
	bugs = runpy.run_path(sys.argv[1])["BUGS"]
	ids = sys.argv[2:] or list(bugs)
	for i in ids:
		print("%s [%s]: %s" % (i, bugs[i]["property"], one(i, bugs[i])[1]), flush=True)


main()
