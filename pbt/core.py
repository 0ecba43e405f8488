"""Property-based-testing core: runs generated cases against the AMAT code in /repo.

A property module defines PROP (id), RULE (text) and SUBS (a list of Sub).  Every Sub has a
Hypothesis strategy that yields one JSON-able case (a dict) and a function which evaluates the
real code on it, compares it with an oracle and raises Violation, or returns True/False
(non-trivial or not).
"""
import contextlib
import hashlib
import io
import json
import math
import os
import signal
import sys
import time
import traceback
import warnings

import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")
HYP = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class Violation(Exception):
	pass


class HungCase(Violation):
	"""a case that ran into CASE_LIMIT_S; never shrunk"""


class HarnessError(Exception):
	pass


class Hung(BaseException):
	pass


CASE_LIMIT_S = int(os.environ.get("VERIF_CASE_LIMIT", "400"))


def _alarm(signum, frame):
	raise Hung()


class Sub:
	def __init__(self, name, strategy, fn, quick, thorough=None, shards=1, tshards=8, corpus=(), shrink=True):
		self.name = name
		self.strategy = strategy
		self.fn = fn
		self.quick = quick
		self.thorough = thorough if thorough is not None else quick * 10
		self.shards = shards
		self.tshards = tshards
		self.corpus = list(corpus)
		self.shrink = shrink


# ---------------------------------------------------------------- oracle helpers
def fail(msg):
	raise Violation(msg)


def require(cond, msg):
	if not cond:
		raise Violation(msg() if callable(msg) else msg)


def arr(x, what="value"):
	try:
		a = np.asarray(x, dtype=float)
	except Exception:
		raise Violation("%s is not numeric: %r" % (what, x))
	return a


def finite(x, what):
	a = arr(x, what)
	if not np.all(np.isfinite(a)):
		raise Violation("%s is not finite: %s" % (what, brief(a)))
	return a


def brief(a):
	a = np.asarray(a)
	if a.size > 6:
		f = a.ravel()
		return "array(shape=%s, first=%s, last=%s)" % (a.shape, f[:3].tolist(), f[-3:].tolist())
	return str(a.tolist())


def close(got, want, what, rtol=1e-9, atol=0.0):
	"""Every element of got equals want within rtol*|want| + atol (atol may be an array)."""
	g = arr(got, what)
	w = np.asarray(want, dtype=float)
	if g.shape != w.shape:
		if g.size == 1 and w.size == 1:
			g = g.reshape(())
			w = w.reshape(())
		else:
			raise Violation("%s has shape %s, expected %s" % (what, g.shape, w.shape))
	if g.size == 0:
		return
	tol = rtol * np.abs(w) + atol
	with np.errstate(invalid="ignore"):
		ok = (np.abs(g - w) <= tol) | (g == w)
	if not np.all(ok):
		bad = np.argwhere(~np.atleast_1d(ok))[0]
		gi = np.atleast_1d(g)[tuple(bad)]
		wi = np.atleast_1d(w)[tuple(bad)]
		raise Violation("%s: got %.17g, expected %.17g (index %s, rtol=%g)" % (what, gi, wi, bad.tolist(), rtol))


def angle_close(got, want, what, atol=1e-9):
	d = arr(got, what) - np.asarray(want, dtype=float)
	d = (d + np.pi) % (2 * np.pi) - np.pi
	if not np.all(np.abs(d) <= atol):
		raise Violation("%s: got %s rad, expected %s rad (mod 2pi, atol=%g)" % (what, brief(got), brief(want), atol))


# ---------------------------------------------------------------- process set-up
def setup():
	if REPO not in sys.path:
		sys.path.insert(0, REPO)
	if HYP not in sys.path:
		sys.path.append(HYP)
	warnings.filterwarnings("ignore")
	np.seterr(all="ignore")
	os.chdir(REPO)


@contextlib.contextmanager
def quiet():
	with contextlib.redirect_stdout(io.StringIO()):
		yield


def _in_amat(tb):
	hit = False
	for fr in traceback.extract_tb(tb):
		if os.path.realpath(fr.filename).startswith(os.path.realpath(os.path.join(REPO, "AMAT")) + os.sep):
			hit = True
	return hit


def evaluate(sub, case):
	"""Run one case. Returns non-trivial flag, raises Violation or HarnessError."""
	signal.signal(signal.SIGALRM, _alarm)
	signal.alarm(CASE_LIMIT_S)
	try:
		with quiet(), warnings.catch_warnings():
			warnings.simplefilter("ignore")
			return bool(sub.fn(case))
	except Violation:
		raise
	except Hung:
		raise HungCase("the code under test did not answer within %d s" % CASE_LIMIT_S)
	except Exception as exc:
		mod = type(exc).__module__
		if mod.startswith("hypothesis"):
			raise
		if _in_amat(exc.__traceback__):
			last = [f for f in traceback.extract_tb(exc.__traceback__) if "AMAT" in f.filename][-1]
			raise Violation("code under test raised %s: %s (%s:%d in %s)" % (
				type(exc).__name__, exc, os.path.basename(last.filename), last.lineno, last.name))
		if isinstance(exc, AttributeError):
			obj = getattr(exc, "obj", None)
			if obj is not None and type(obj).__module__.startswith("AMAT"):
				raise Violation("result %r is missing on %s" % (exc.name, type(obj).__name__))
		raise HarnessError("".join(traceback.format_exception(exc)))
	finally:
		signal.alarm(0)


def jsonable(x):
	if isinstance(x, dict):
		return {str(k): jsonable(v) for k, v in x.items()}
	if isinstance(x, (list, tuple)):
		return [jsonable(v) for v in x]
	if isinstance(x, (np.floating,)):
		return float(x)
	if isinstance(x, (np.integer,)):
		return int(x)
	return x


def case_key(case):
	return hashlib.sha1(json.dumps(jsonable(case), sort_keys=True).encode()).hexdigest()


# ---------------------------------------------------------------- generation
def thin_out_mutants(eng):
	"""Hypothesis follows every fresh example by about five copies in which spans of one label are overwritten with each other.
	With the flat numeric cases used here those copies mostly fall back to the simplest value of every later choice, so
	four cases out of five would be degenerate: they are made after every eighth fresh example only."""
	cls = getattr(eng, "ConjectureRunner", None)
	orig = getattr(cls, "generate_mutations_from", None)
	if orig is None or getattr(orig, "thinned", False):
		return
	count = [0]

	def sometimes(self, data):
		count[0] += 1
		if count[0] % 8 == 0:
			return orig(self, data)
	sometimes.thinned = True
	cls.generate_mutations_from = sometimes


# ---------------------------------------------------------------- one task = one sub, one shard
def run_task(mod_name, sub_name, shard, seed, n, budget_s, shrink=True):
	import importlib
	import resource
	resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
	setup()
	import hypothesis
	from hypothesis import HealthCheck, Phase, settings
	import hypothesis.internal.conjecture.engine as eng
	eng.MAX_SHRINKING_SECONDS = 60
	thin_out_mutants(eng)
	mod = importlib.import_module("pbt.props." + mod_name)
	sub = [s for s in mod.SUBS if s.name == sub_name][0]

	st = dict(sub=sub_name, shard=shard, evaluations=0, nontrivial=set(), samples=[], skipped=0,
			violation=None, error=None, wall=0.0)
	t0 = time.time()
	box = {}

	def record(case):
		st["evaluations"] += 1
		try:
			nt = evaluate(sub, case)
		except Violation as v:
			box["case"] = jsonable(case)
			box["msg"] = str(v)
			box["hung"] = isinstance(v, HungCase)
			raise
		except HarnessError as e:
			# an error of the check itself: remember it and stop judging (no shrinking)
			st["error"] = "case %s\n%s" % (json.dumps(jsonable(case))[:1500], e)
			return
		if nt:
			k = case_key(case)
			if k not in st["nontrivial"]:
				st["nontrivial"].add(k)
				if len(st["samples"]) < 2:
					st["samples"].append(jsonable(case))

	try:
		if shard == 0:
			for c in sub.corpus:
				record(c)

		digest = int(hashlib.sha256(("%s/%s/%d/%d" % (mod_name, sub_name, shard, seed)).encode()).hexdigest()[:12], 16)
		phases = (Phase.explicit, Phase.generate, Phase.shrink) if sub.shrink and shrink else (Phase.explicit, Phase.generate)

		def body(case):
			if st["error"] or box.get("hung"):
				return
			if "case" not in box and time.time() - t0 > budget_s:
				st["skipped"] += 1
				return
			record(case)

		test = hypothesis.given(sub.strategy)(body)
		test = settings(max_examples=n, database=None, deadline=None, phases=phases, print_blob=False,
						report_multiple_bugs=False,
						suppress_health_check=list(HealthCheck))(test)
		test = hypothesis.seed(digest)(test)
		with quiet():
			test()
	except HarnessError as e:
		st["error"] = str(e)
	except Violation as v:
		st["violation"] = dict(sub=sub_name, case=box.get("case"), message=str(v))
	except BaseException as e:
		if "case" in box:
			st["violation"] = dict(sub=sub_name, case=box["case"], message=box["msg"])
		elif isinstance(e, MemoryError):
			st["error"] = "MemoryError"
		else:
			st["error"] = "".join(traceback.format_exception(e))
	if st["violation"] is not None and "case" in box:
		# the last failing case Hypothesis re-ran is the minimal one
		st["violation"]["case"] = box["case"]
		st["violation"]["message"] = box["msg"]
	st["wall"] = time.time() - t0
	return st
