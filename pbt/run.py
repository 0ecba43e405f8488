"""Runner:  python -m pbt.run <ID> [--tier quick|thorough] [--seed N] | --replay FILE"""
import argparse
import importlib
import json
import multiprocessing as mp
import os
import sys
import time

from pbt import core


def find_module(pid):
	d = os.path.join(os.path.dirname(os.path.abspath(__file__)), "props")
	for f in sorted(os.listdir(d)):
		if f.lower().startswith(pid.lower() + "_") and f.endswith(".py"):
			return f[:-3]
	raise SystemExit("no module for property " + pid)


def main():
	ap = argparse.ArgumentParser()
	ap.add_argument("pid", nargs="?")
	ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
	ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
	ap.add_argument("--replay")
	ap.add_argument("--sub")
	ap.add_argument("--scale", type=float, default=1.0)
	ap.add_argument("--budget", type=float, default=None)
	ap.add_argument("--jobs", type=int, default=min(8, os.cpu_count() or 1))
	ap.add_argument("-v", action="store_true")
	ap.add_argument("--first", action="store_true", help="stop at the first violation, unshrunk (mutation runs)")
	a = ap.parse_args()

	if a.replay:
		path = os.path.abspath(a.replay)
		core.setup()
		rec = json.load(open(path))
		mod = importlib.import_module("pbt.props." + find_module(rec["property"]))
		sub = [s for s in mod.SUBS if s.name == rec["sub"]][0]
		try:
			core.evaluate(sub, rec["case"])
		except core.Violation as v:
			print("reproduced: %s" % v)
			print("VIOLATION property=%s replay=%s" % (rec["property"], path))
			return 1
		print("case passes")
		return 0

	tier = "thorough" if a.tier == "thorough" else "quick"
	t0 = time.time()
	core.setup()
	name = find_module(a.pid)
	try:
		mod = importlib.import_module("pbt.props." + name)
	except Exception as e:
		import traceback
		if core._in_amat(e.__traceback__):
			# the package under test cannot even be imported
			rd = os.path.join(core.VERIF, "evidence", "replays")
			os.makedirs(rd, exist_ok=True)
			p = os.path.join(rd, "%s-import.txt" % a.pid)
			open(p, "w").write(traceback.format_exc())
			print(traceback.format_exc())
			print("VIOLATION property=%s replay=%s" % (a.pid, p))
			return 1
		raise
	# quick checks must finish inside 900 s even on a slower machine
	budget = a.budget or (240.0 if tier == "quick" else 3000.0)
	tasks = []
	for s in mod.SUBS:
		if a.sub and s.name != a.sub:
			continue
		shards = s.shards if tier == "quick" else max(s.shards, s.tshards)
		total = s.quick if tier == "quick" else s.thorough
		n = max(1, int(round(total * a.scale / shards)))
		for k in range(shards):
			tasks.append((name, s.name, k, a.seed, n, budget, not a.first))
	ctx = mp.get_context("spawn")
	results = []
	with ctx.Pool(min(a.jobs, len(tasks)), maxtasksperchild=1) as pool:
		pend = [pool.apply_async(core.run_task, t) for t in tasks]
		if a.first:
			while not all(r.ready() for r in pend):
				if any(r.ready() and r.get()["violation"] for r in pend):
					break
				time.sleep(0.1)
			pend = [r for r in pend if r.ready()]
		for t, r in zip(tasks, pend):
			try:
				results.append(r.get(timeout=860 if tier == "quick" else 20000))
			except mp.TimeoutError:
				print("ERROR: task %s timed out" % (t[:3],))
				pool.terminate()
				return 3
	errors = [r for r in results if r["error"]]
	viols = [r for r in results if r["violation"]]
	nontriv = set()
	samples = []
	bysub = {}
	for r in results:
		nontriv |= {(r["sub"], k) for k in r["nontrivial"]}
		d = bysub.setdefault(r["sub"], dict(evaluations=0, distinct_nontrivial=0, skipped_by_budget=0, wall_s=0.0))
		d["evaluations"] += r["evaluations"]
		d["skipped_by_budget"] += r["skipped"]
		d["wall_s"] = round(d["wall_s"] + r["wall"], 2)
		if r["samples"] and r["shard"] == 0:
			samples.append(dict(sub=r["sub"], case=r["samples"][0]))
	for sname, _ in nontriv:
		bysub[sname]["distinct_nontrivial"] += 1

	# known findings: probe each listed one, deterministically
	known = []
	if hasattr(mod, "KNOWN") and not a.sub:
		for kid, probe, text in mod.KNOWN:
			try:
				with core.quiet():
					still = probe()
			except Exception as e:
				errors.append(dict(sub="known:" + kid, error=repr(e)))
				continue
			if still:
				known.append(text)
				print("KNOWN-FINDING: property=%s %s" % (a.pid, text))

	os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
	ev = dict(property=a.pid, tier=tier, seed=a.seed, level="exploration",
			coverage=dict(evaluations=sum(r["evaluations"] for r in results), distinct_nontrivial=len(nontriv),
						rule=mod.RULE, samples=samples[:12], by_sub=bysub),
			wall_s=round(time.time() - t0, 2),
			assumptions=getattr(mod, "ASSUMPTIONS", []),
			violations=len(viols))
	with open(os.path.join(core.VERIF, "evidence", a.pid + ".json"), "w") as f:
		json.dump(ev, f, indent=1)
	if a.v or errors or viols:
		for k, d in bysub.items():
			print("%-28s %s" % (k, d))
	print("%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs" % (
		a.pid, tier, a.seed, ev["coverage"]["evaluations"], len(nontriv), ev["wall_s"]))
	if viols:
		rd = os.path.join(core.VERIF, "evidence", "replays")
		os.makedirs(rd, exist_ok=True)
		for v in viols:
			p = os.path.join(rd, "%s-%s-%d.json" % (a.pid, v["sub"], v["shard"]))
			with open(p, "w") as f:
				json.dump(dict(property=a.pid, **v["violation"]), f, indent=1)
			print("%s/%s: %s\n  case: %s" % (a.pid, v["sub"], v["violation"]["message"],
				json.dumps(v["violation"]["case"])[:2000]))
			print("VIOLATION property=%s replay=%s" % (a.pid, p))
		return 1
	if errors:
		for e in errors:
			print("HARNESS ERROR in %s:\n%s" % (e["sub"], e["error"]))
		return 2
	return 0


if __name__ == "__main__":
	sys.exit(main())
