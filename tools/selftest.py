"""Sanity of the engine before the checks run: the solver answers, the current
source loads symbolically, and a false assertion is refuted and replayed."""
import os
import sys

sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.setrecursionlimit(20000)
from sx import runner, world  # noqa: E402


def good(w):
    d, o = w.ord_date("d", 1, world.MAXORD - 1)
    w.check("tomorrow", d.add(days=1).py_date().toordinal() == o + 1)


def bad(w):
    d, o = w.ord_date("d", 1, world.MAXORD - 1)
    w.check("no day is 29 February", w.bnot(w.band(d.month == 2, d.day == 29)))


def run(fn):
    return runner.explore(runner.Job(fn, {}, fn.__name__, ("quick",), {}), [[]], [], 1, 60, 1, None)


a, b = run(good), run(bad)
assert not a["violations"] and a["paths"] and not a["mismatch"] and not a["incon"], a
assert b["violations"] and b["violations"][0]["confirmed"], b
print("engine ok:", a["paths"], "paths;", "refuted:", b["violations"][0]["inputs"])
