#!/usr/bin/env python3
"""Mutation survey of the checks.  python3 tools/mutate.py OUT.jsonl [--per N] [--file F] [--func REGEX] [--seed S] [--jobs J]

Makes small syntactic mutants of AMAT (operators, comparisons, signs, constants, trigonometric functions, conditions, dropped
assignments), a few per function, each in a scratch copy, and runs the quick checks of the properties anchored at that function
(first violation stops).  Survivors are then looked at by hand: equivalent, or a hole in a check.  Not part of any check.
"""
import argparse
import ast
import json
import os
import random
import re
import shutil
import subprocess
from concurrent.futures import ThreadPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FILES = {"planet": None, "vehicle": None, "approach": ["P18", "P19", "P21", "P20"], "maneuver": ["P19"], "orbiter": ["P20", "P21"],
		"visibility": ["P22"], "telecom": ["P23"], "launcher": ["P24", "P25"], "interplanetary": ["P25"]}
VEH = [(r"MonteCarlo", ["P17"]), (r"plots|createQPlot", ["P27"]),
	(r"setDragEntryPhase|EntryPhaseD|ExitPhaseD|GuidedEntryD|utilD|afterJett", ["P16", "P14"]),
	(r"LimitD|TCWD|setDragMod", ["P13", "P16"]), (r"hitsTarget|ShootLimit|TCW", ["P12"]),
	(r"EquilibriumGlide|ExitPhase|GuidedEntry|setTargetOrbit", ["P15"]),
	(r"createDensityMeasured|psuedo|predictApo|setMaxRoll", ["P14", "P15"]), (r"dummyVehicle", ["P14", "P10", "P15"]),
	(r"raise_DV|_ApoapsisAlt|_PeriapsisAlt|isCaptured|AngMom|EccScalar|SemiMajor", ["P11"]),
	(r"propogateEntry|setInitialState|setSolver", ["P10"]), (r"classify|truncate", ["P08"]),
	(r"qStag|computeHeating", ["P05"]), (r"^(L|D|Lbar|Dbar|Lvec\w*|Dvec\w*|a_\w+|__init__|setCDMach\w*)$", ["P04", "P06", "P10"]),
	(r"^(cf|co|g)\w*bar|EOM|avoid", ["P06"]), (r"solveTraj|hit_EFPA", ["P07"]), (r"convert|compute", ["P09", "P10"])]
PLA = [(r"checkAtm", ["P27"]), (r"MonteCarlo|loadMonte|Monte", ["P03"]), (r"__init__|nonDim|computeR|computeH", ["P01"]), (r".", ["P02", "P03", "P01"])]


def props(mod, fn):
	if FILES[mod]:
		return FILES[mod]
	for rx, ps in (VEH if mod == "vehicle" else PLA):
		if re.search(rx, fn):
			return ps
	return ["P10"]


CMP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">="], ast.Gt: [">=", "<"], ast.GtE: [">", "<="], ast.Eq: ["!="], ast.NotEq: ["=="]}
SYM = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!="}
BIN = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["/"]), ast.Div: ("/", ["*"])}
SWAP = {"cos": "sin", "sin": "cos", "arccos": "arcsin", "max": "min", "min": "max", "amax": "amin", "amin": "amax"}


def sites(src):
	"""(function, line, start, end, replacement, kind) for every mutation"""
	tree = ast.parse(src)
	starts = [0]
	data = src.encode()
	for ln in data.split(b"\n"):
		starts.append(starts[-1] + len(ln) + 1)
	off = lambda l, c: starts[l - 1] + c
	out = []

	def walk(node, fn):
		for ch in ast.iter_child_nodes(node):
			f = ch.name if isinstance(ch, ast.FunctionDef) else fn
			if isinstance(ch, ast.ClassDef) and ch.name.startswith("Test"):
				continue
			if f is None:
				walk(ch, f)
				continue
			if isinstance(ch, ast.Expr) and isinstance(ch.value, ast.Constant):
				continue
			span = lambda n: (off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset))
			if isinstance(ch, ast.Compare) and len(ch.ops) == 1 and type(ch.ops[0]) in CMP:
				a, b = span(ch.left)[1], span(ch.comparators[0])[0]
				seg = data[a:b].decode()
				for r in CMP[type(ch.ops[0])]:
					out.append((f, ch.lineno, a, b, seg.replace(SYM[type(ch.ops[0])], r, 1), "cmp"))
			if isinstance(ch, ast.BinOp) and type(ch.op) in BIN:
				a, b = span(ch.left)[1], span(ch.right)[0]
				seg = data[a:b].decode()
				s, rs = BIN[type(ch.op)]
				if s in seg:
					for r in rs:
						out.append((f, ch.lineno, a, b, seg.replace(s, r, 1), "bin"))
			if isinstance(ch, ast.UnaryOp) and isinstance(ch.op, ast.USub):
				a, b = span(ch)
				out.append((f, ch.lineno, a, b, "(" + data[slice(*span(ch.operand))].decode() + ")", "neg"))
			if isinstance(ch, ast.Constant) and type(ch.value) in (int, float) and not isinstance(ch.value, bool):
				a, b = span(ch)
				v = ch.value
				out.append((f, ch.lineno, a, b, repr(v + 1) if v in (0, 1, -1) or isinstance(v, int) else repr(v * 1.02), "const"))
			if isinstance(ch, ast.Attribute) and ch.attr in SWAP:
				a, b = span(ch)
				out.append((f, ch.lineno, a, b, data[a:b].decode()[:-len(ch.attr)] + SWAP[ch.attr], "fn"))
			if isinstance(ch, (ast.If, ast.While)):
				a, b = span(ch.test)
				out.append((f, ch.lineno, a, b, "not (" + data[a:b].decode() + ")", "cond"))
			if isinstance(ch, ast.BoolOp):
				a, b = span(ch.values[0])[1], span(ch.values[1])[0]
				seg = data[a:b].decode()
				out.append((f, ch.lineno, a, b, seg.replace("and", "or") if isinstance(ch.op, ast.And) else seg.replace("or", "and"), "bool"))
			if isinstance(ch, ast.Assign) and isinstance(ch.targets[0], ast.Attribute) and fn is not None:
				a, b = span(ch)
				if not (isinstance(ch.value, ast.Constant) and ch.value.value is None):
					out.append((f, ch.lineno, a, b, "pass", "drop"))
			walk(ch, f)
	walk(tree, None)
	return out


def one(k, mod, s, verif, cnt):
	fn, line, a, b, new, kind = s
	wt = "/tmp/mut-%d" % k
	shutil.rmtree(wt, ignore_errors=True)
	try:
		subprocess.run(["cp", "-a", "/repo", wt], check=True)
		p = os.path.join(wt, "AMAT", mod + ".py")
		data = open(p, "rb").read()
		old = data[a:b].decode()
		open(p, "wb").write(data[:a] + new.encode() + data[b:])
		text = open(p, newline="").read().split("\n")[line - 1].strip()
		rec = dict(file=mod, func=fn, line=line, kind=kind, old=old, new=new, text=text[:140], killed=None, rcs={})
		for pid in props(mod, fn):
			r = subprocess.run([verif + "/check.sh", pid, "quick", "--first", "--jobs", "2", "--scale", str(cnt)], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
								env=dict(os.environ, VERIF_REPO=wt))
			rec["rcs"][pid] = r.returncode
			if r.returncode == 1:
				rec["killed"] = pid
				break
			if r.returncode not in (0, 1):
				rec["error"] = r.stdout[-600:]
		return rec
	finally:
		shutil.rmtree(wt, ignore_errors=True)


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument("out")
	ap.add_argument("--per", type=int, default=3)
	ap.add_argument("--file")
	ap.add_argument("--func", default=".")
	ap.add_argument("--seed", type=int, default=1)
	ap.add_argument("--jobs", type=int, default=5)
	ap.add_argument("--scale", type=float, default=1.0)
	ap.add_argument("--verif", default=ROOT)
	a = ap.parse_args()
	rnd = random.Random(a.seed)
	todo = []
	for mod in FILES:
		if a.file and mod != a.file:
			continue
		src = open("/repo/AMAT/%s.py" % mod, newline="").read()
		by = {}
		for s in sites(src):
			by.setdefault(s[0], []).append(s)
		for fn, ss in by.items():
			if re.search(a.func, fn):
				n = len({x[1] for x in ss})
				todo += [(mod, s) for s in rnd.sample(ss, min(len(ss), a.per if n < 25 else 2 * a.per if n < 80 else 4 * a.per))]
	print(len(todo), "mutants")
	done = kill = 0
	with open(a.out, "a") as f, ThreadPoolExecutor(a.jobs) as ex:
		futs = [ex.submit(one, k, t[0], t[1], a.verif, a.scale) for k, t in enumerate(todo)]
		for rec in (x.result() for x in as_completed(futs)):
			done += 1
			kill += bool(rec["killed"])
			f.write(json.dumps(rec) + "\n")
			f.flush()
			if not rec["killed"]:
				print("%d/%d %s.%s:%d [%s] %r -> %r | %s | %s" % (kill, done, rec["file"], rec["func"], rec["line"], rec["kind"], rec["old"], rec["new"], rec["text"], rec["rcs"]), flush=True)
	print("killed %d of %d" % (kill, done))


if __name__ == "__main__":
	main()
