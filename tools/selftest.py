"""setup_cmd: the engine is pure Python; check that what it needs is there and
that it accepts a true contract and refutes a false one."""
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import dv      # noqa: E402,F401  (sets up paths)
from dv import core      # noqa: E402


def good(cx):
    x, y = cx.real("x"), cx.real("y", pos=True)
    cx.ensure_eq("a", (x + y) ** 2, x ** 2 + 2 * x * y + y ** 2)
    v = cx.sorted_vec("v", minlen=2)
    cx.ensure("b", v[0] < v[1])


def bad(cx):
    x = cx.real("x")
    cx.ensure_eq("a", x * x, x)
    v = cx.sorted_vec("v", minlen=2, strict=False)
    cx.ensure("b", v[0] < v[1])


ex = core.Explorer()
assert ex.run(good) is None
assert [o.status for o in ex.obs] == ["proved", "proved"], [
    o.status for o in ex.obs]
ex = core.Explorer()
assert ex.run(bad) is None
assert ex.obs[0].status == "refuted" and ex.obs[1].status != "proved"
print("ok")
