"""Contexts, exploration of the real functions, and proof obligations."""
import contextlib
import io
import os
import random
import re
import signal
import sys
import threading
import time
import traceback
import types
import warnings
import zlib
from fractions import Fraction

import numpy as np

from . import expr as E
from . import npshim as S
from . import vec as V
from . import ring, smt, evalf
from .expr import Sym, SymB, Unsupported, node, wrap


class Infeasible(Exception):
    """The current path contradicts its own hypotheses."""


class Reject(Exception):
    """A concrete sample does not satisfy the precondition."""


class Budget(Exception):
    pass


class Hang(Exception):
    """The code under contract does not come to an end."""


@contextlib.contextmanager
def time_limit(seconds, exc):
    """Raise exc in this thread when the time is up (and again every second,
    should the code under contract catch it)."""
    def ring_(sig, frame):
        raise exc
    if threading.current_thread() is not threading.main_thread():
        yield
        return
    old = signal.signal(signal.SIGALRM, ring_)
    signal.setitimer(signal.ITIMER_REAL, max(seconds, .1), 1.0)
    try:
        yield
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


class Ob:
    """One proof obligation on one path."""
    __slots__ = ("name", "status", "backend", "time", "detail", "env",
                 "sig", "path")

    def __init__(self, name):
        self.name = name
        self.status = "unknown"
        self.backend = None
        self.time = 0.0
        self.detail = ""
        self.env = None
        self.sig = None
        self.path = None


# ------------------------------------------------------------------ patching
class _Range:
    def __init__(self, cx, *a):
        self.cx = cx


def modules():
    return [m for k, m in list(sys.modules.items())
            if (k == "disc_solver" or k.startswith("disc_solver."))
            and isinstance(m, types.ModuleType)]


class Patches:
    def __init__(self):
        self.saved = []

    def set(self, d, k, v):
        """d: a namespace dict or an object"""
        if isinstance(d, dict):
            had = k in d
            self.saved.append((d, k, had, d.get(k)))
            d[k] = v
        else:
            had = k in vars(d)
            self.saved.append((d, k, had, vars(d).get(k)))
            setattr(d, k, v)

    def undo(self):
        for d, k, had, old in reversed(self.saved):
            if isinstance(d, dict):
                if had:
                    d[k] = old
                else:
                    d.pop(k, None)
            else:
                if had:
                    setattr(d, k, old)
                else:
                    with contextlib.suppress(AttributeError):
                        delattr(d, k)
        self.saved = []


def s_len(x):
    if isinstance(x, V.SVec):
        return wrap(x.n)
    if isinstance(x, Sym):
        raise TypeError("object of type 'float' has no len()")
    return len(x)


def s_max(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], V.SVec):
        return V.f_max(a[0])
    return max(*a, **k)


def s_min(*a, **k):
    if len(a) == 1 and not k and isinstance(a[0], V.SVec):
        return V.f_min(a[0])
    return min(*a, **k)


BUILTINS = {"len": s_len, "max": s_max, "min": s_min}


_TABLE = None


def install_symbolic(p):
    global _TABLE
    if _TABLE is None:
        _TABLE = S.table()
    proxy = S.NumpyProxy(_TABLE)
    for m in modules():
        d = vars(m)
        for k, f in BUILTINS.items():
            if k not in d:
                p.set(d, k, f)
        for k, v in list(d.items()):
            if v is np:
                p.set(d, k, proxy)
            elif callable(v):
                r = _TABLE.get(id(v))
                if r is not None:
                    p.set(d, k, r)


# ------------------------------------------------------------------ contexts
class Base:
    """What contracts are written against; same API in both modes."""
    symbolic = False

    def __init__(self):
        self.patches = Patches()
        self.ghost = {}
        self.counter = {}

    def fresh(self, base):
        c = self.counter.get(base, 0) + 1
        self.counter[base] = c
        return "%s!%d" % (base, c)

    def patch(self, obj, name, value):
        self.patches.set(vars(obj) if isinstance(obj, types.ModuleType)
                         else obj, name, value)

    def stub(self, original, replacement):
        """Use a contract in place of a callee, wherever it is bound."""
        n = 0
        for m in modules():
            d = vars(m)
            for k, v in list(d.items()):
                if v is original:
                    self.patches.set(d, k, replacement)
                    n += 1
        if not n:
            raise Unsupported("callee %r is not bound in the package" % (
                getattr(original, "__name__", original),))

    def attempt(self, fn, *a, **k):
        """('ok', value) or ('raise', exception) for library exceptions."""
        try:
            return "ok", fn(*a, **k)
        except (Unsupported, Infeasible, Reject, Budget, Hang):
            raise
        except Exception as e:      # the code under contract raised
            return "raise", e

    def reals(self, *names, **kw):
        return [self.real(n, **kw) for n in names]

    def ensure_zero(self, name, *terms):
        """terms[0] + terms[1] + ... == 0"""
        tot = terms[0]
        for t in terms[1:]:
            tot = tot + t
        if self.symbolic:
            return self.ensure_eq(name, tot, 0 * tot)
        with np.errstate(all="ignore"):
            sc = sum(np.abs(np.asarray(t, dtype=float)) for t in terms)
        return self.ensure_eq(name, tot, 0 * np.asarray(tot, dtype=float),
                              scale=sc)

    def ensure_true(self, name, value):
        self.ensure(name, bool(value))


class Symbolic(Base):
    symbolic = True

    def __init__(self, explorer):
        super().__init__()
        self.ex = explorer
        self.pc = []
        self.pos = 0
        self.vars = {}
        self.posv = set()
        self.hyps = {}
        self.vecs = {}

    # ---- inputs
    def real(self, name, pos=False, nonneg=False, lo=None, hi=None,
             nonzero=False):
        n = E.var(name, "R")
        self.vars[name] = n
        if pos:
            self.assume_node(E.lt(E.ZERO, n))
            self.posv.add(name)
        if nonneg:
            self.assume_node(E.le(E.ZERO, n))
        if nonzero:
            self.assume_node(E.bnot(E.eq(n, E.ZERO)))
        if lo is not None:
            self.assume_node(E.le(E.const(lo), n))
        if hi is not None:
            self.assume_node(E.le(n, E.const(hi)))
        return Sym(n)

    def int(self, name, lo=None, hi=None):
        n = E.var(name, "I")
        self.vars[name] = n
        if lo is not None:
            self.assume_node(E.le(E.const(lo), n))
        if hi is not None:
            self.assume_node(E.le(n, E.const(hi)))
        return Sym(n)

    def bool(self, name):
        n = E.var(name, "B")
        self.vars[name] = n
        return SymB(n)

    def choice(self, name, options):
        options = list(options)
        k = self.decide_n(len(options), name)
        self.ghost.setdefault("choices", {})[name] = k
        return options[k]

    def vec(self, name, n=None, cols=None, minlen=0):
        if n is None:
            n = self.int(name + ".len", lo=minlen)
        self.vecs[name] = (node(n), cols)
        return V.symvec(name, node(n), cols)

    def sorted_vec(self, name, n=None, minlen=0, strict=True, first=None,
                   last=None):
        """An increasing vector."""
        v = self.vec(name, n, minlen=minlen)
        i, j = E.fresh_bound(), E.fresh_bound()
        cmp = E.lt if strict else E.le
        self.assume_node(E.quant("forall", i, E.quant("forall", j, V.imp(
            E.band(E.le(E.const(0), i), E.lt(i, j), E.lt(j, v.n)),
            cmp(v.get(i), v.get(j))))))
        if first is not None:
            self.assume_node(E.eq(v.get(E.const(0)), S.num(first)))
        if last is not None:
            self.assume_node(E.eq(v.get(E.sub(v.n, E.const(1))),
                                  S.num(last)))
        return v

    def lemma_rising(self, get, n):
        """By induction: v[i] <= v[i + 1] for all i makes v rise."""
        self.assume_node(V.rising(lambda i: node(get(Sym(i))), node(n)))

    def is_sorted(self, v, strict=True):
        i, j = E.fresh_bound(), E.fresh_bound()
        cmp = E.lt if strict else E.le
        return SymB(E.quant("forall", i, E.quant("forall", j, V.imp(
            E.band(E.le(E.const(0), i), E.lt(i, j), E.lt(j, v.n)),
            cmp(v.get(i), v.get(j))))))

    def func(self, name, sort="R"):
        """An uninterpreted function of real arguments."""
        def f(*args):
            return wrap(E.app(name, sort, *[E.toreal(S.num(a))
                                            for a in args]))
        return f

    def le(self, a, b):
        return SymB(E.le(S.num(a), S.num(b)))

    def eq(self, a, b):
        return SymB(E.eq(S.num(a), S.num(b)))

    def ite(self, c, a, b):
        return wrap(E.ite(S.truth(c), S.num(a), S.num(b)))

    def real_array(self, names):
        a = np.empty(len(names), dtype=object)
        for i, nm in enumerate(names):
            a[i] = nm if not isinstance(nm, str) else self.real(nm)
        return a.view(S.SArr)

    def array(self, x):
        return S.to_object_array(x).view(S.SArr)

    def text(self, name, like="word", nonempty=True, domain=None, free=True):
        """An unknown text (dv.tok.install first)."""
        from . import tok
        return tok.Tok(name, "in", domain=domain, nonempty=nonempty,
                       free=free)

    # ---- path
    def decide_n(self, n, label=""):
        d = self.ex.decisions
        if self.pos < len(d):
            v = d[self.pos][0]
        else:
            self.ex.tick()
            d.append([0, n])
            v = 0
        self.pos += 1
        return v

    def decide(self, b):
        for p in self.pc:
            if p is b:
                return True
            if p is E.bnot(b):
                return False
        d = self.ex.decisions
        if self.pos < len(d):
            v = d[self.pos][0]
            taken = d[self.pos][2][v]
        else:
            self.ex.tick()
            opts = self.obvious(b)
            for t in (True, False) if opts is None else ():
                opts = opts or []
                c = b if t else E.bnot(b)
                if self.feasible(c):
                    opts.append(t)
            if not opts:
                raise Infeasible()
            d.append([0, len(opts), opts])
            taken = opts[0]
        self.pos += 1
        self.pc.append(b if taken else E.bnot(b))
        return taken

    def obvious(self, b):
        """The value of b if the simple integer facts known settle it."""
        if not simple_int(b):
            return None
        facts = [p for p in self.pc if simple_int(p)]
        for t in (True, False):
            c = E.bnot(b) if t else b
            r, _, _ = smt.check(facts + [c], timeout=self.ex.branch_timeout,
                                use_cvc5=False, quick=True)
            if r == "unsat":
                return [t]
        return None

    def feasible(self, c):
        r, _, _ = smt.check(self.pc + [c], timeout=self.ex.branch_timeout,
                            use_cvc5=False, quick=True)
        return r != "unsat"

    def assume_node(self, n):
        if n is E.TRUE:
            return
        if n is E.FALSE:
            raise Infeasible()
        self.pc.append(n)

    def require(self, c):
        n = node(c) if not isinstance(c, bool) else E.const(c)
        self.assume_node(n)

    def define(self, sym, value):
        """Hypothesis  sym == value  used as a rewriting rule (sym a fresh
        variable)."""
        self.hyps[node(sym)] = node(value)
        self.assume_node(E.eq(node(sym), node(value)))

    def forall_int(self, body, lo, hi):
        """forall lo <= i < hi: body(i)"""
        b = E.fresh_bound()
        return SymB(E.quant("forall", b, V.imp(E.band(
            E.le(node(lo), b), E.lt(b, node(hi))), node(body(Sym(b))))))

    def exists_int(self, body, lo, hi):
        b = E.fresh_bound()
        return SymB(E.quant("exists", b, E.band(E.band(
            E.le(node(lo), b), E.lt(b, node(hi))), node(body(Sym(b))))))

    def length(self, v):
        return wrap(v.n) if isinstance(v, V.SVec) else len(v)

    def imply(self, a, b):
        return SymB(V.imp(node(a), node(b)))

    # ---- obligations
    def new(self, name):
        ob = Ob(name)
        ob.path = list(self.ghost.get("choices", {}).items())
        self.ex.obs.append(ob)
        return ob

    def ensure(self, name, cond):
        ob = self.new(name)
        t0 = time.time()
        try:
            if isinstance(cond, (bool, np.bool_)):
                n = E.const(bool(cond))
            else:
                n = node(cond)
                if n.sort != "B":
                    n = S.truth(cond)
            self.prove(ob, n)
        finally:
            ob.time = time.time() - t0

    def prove(self, ob, n, tried_ring=False):
        if n is E.TRUE:
            ob.status, ob.backend = "proved", "syntactic"
            return
        for p in self.pc:
            if p is n:
                ob.status, ob.backend = "proved", "hypothesis"
                return
        if n.op == "and":
            # conjuncts one by one: smaller queries
            worst = None
            for part in n.args:
                self.prove(ob, part)
                if ob.status != "proved":
                    return
                worst = ob.backend if ob.backend != "syntactic" else worst
            ob.backend = worst or "syntactic"
            return
        if n.op == "==" and n.args[0].sort == "R" or \
                n.op == "==" and n.args[1].sort == "R":
            z = not tried_ring and self.ring_zero(E.sub(*n.args))
            if z:
                ob.status, ob.backend = "proved", "ring"
                return
        r, env, be = smt.check(self.pc + [E.bnot(n)],
                               timeout=self.ex.timeout, want_model=True)
        ob.backend = be
        if r == "unsat":
            ob.status = "proved"
        elif r == "sat":
            ob.status = "refuted"
            ob.env = env[0] if env else None
            ob.detail = "solver counter-model: %s" % (
                {k: str(v) for k, v in sorted(ob.env.items())}
                if ob.env else "(none)")
        else:
            ob.status = "unknown"

    def ring_zero(self, n):
        try:
            z, size = ring.is_zero(n, self.hyps, self.posv)
        except (ring.TooHard, ZeroDivisionError, Unsupported):
            return None
        return z

    def ensure_eq(self, name, a, b, scale=None):
        """a == b, elementwise for arrays."""
        if isinstance(a, V.SVec) or isinstance(b, V.SVec):
            return self.ensure_vec_eq(name, a, b)
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            a_, b_ = np.broadcast_arrays(S.asobj(a), S.asobj(b))
            if np.shape(a) != np.shape(b) and np.ndim(a) and np.ndim(b):
                return self.ensure(name + ": shape", False)
            for idx in np.ndindex(*a_.shape):
                self.ensure_eq("%s%s" % (name, list(idx)), a_[idx], b_[idx])
            return
        ob = self.new(name)
        t0 = time.time()
        try:
            na, nb = S.num(a), S.num(b)
            self.prove_eq(ob, na, nb)
        finally:
            ob.time = time.time() - t0

    def prove_eq(self, ob, na, nb):
        if na is nb:
            ob.status, ob.backend = "proved", "syntactic"
            return
        if "nan" in (na.op, nb.op) or "inf" in (na.op, nb.op):
            ob.status, ob.backend = "refuted", "syntactic"
            ob.detail = "not a finite value"
            return
        d = E.sub(na, nb)
        # refutation at points satisfying the hypotheses
        hit = self.sample_nonzero(d)
        if hit is not None:
            ob.status, ob.backend = "refuted", "ring"
            ob.env = hit[0]
            ob.detail = "difference %s at %s" % (
                evalf.mp.nstr(hit[1], 12), {k: float(v) for k, v in
                                            sorted(hit[0].items())})
            ob.sig = self.signature(d)
            return
        if self.ring_zero(d):
            ob.status, ob.backend = "proved", "ring"
            return
        self.prove(ob, E.eq(na, nb), tried_ring=True)

    def ensure_vec_eq(self, name, a, b):
        if not (isinstance(a, V.SVec) and isinstance(b, V.SVec)):
            if not isinstance(a, V.SVec):
                a, b = b, a
            if not S.scalar_like(b):
                b = V.concatenate([b])
            else:
                bn = node(b)
                b = V.SVec(a.n, (lambda i: bn) if a.cols is None else (
                    lambda i, j: bn), a.cols)
        self.ensure(name + ": length", SymB(E.eq(a.n, b.n)))
        i = E.var(self.fresh("i"), "I")
        save = list(self.pc)
        self.assume_node(V.rng(i, a.n))
        try:
            if a.cols is None and b.cols is None:
                self.ensure_eq(name, wrap(a.get(i)), wrap(b.get(i)))
            elif a.cols != b.cols:
                self.ensure(name + ": columns", False)
            else:
                for j in range(a.cols):
                    self.ensure_eq("%s[:, %d]" % (name, j),
                                   wrap(a.get(i, j)), wrap(b.get(i, j)))
        finally:
            self.pc = save

    def sample_env(self, k, names):
        """Point number k; a variable's value depends on its name only."""
        env = {}
        for v in names:
            nm = v.args[0]
            if nm == "π":
                continue
            h = zlib.crc32(repr((k, nm)).encode())
            if v.sort == "I":
                env[nm] = h % 7
            elif v.sort == "B":
                env[nm] = h % 2 == 0
            else:
                x = Fraction(h % 396 + 5, 200)
                if nm not in self.posv and (h >> 12) % 100 < 35:
                    x = -x
                env[nm] = x
        return env

    def evaluator(self, env, seed):
        cache = {}

        def look(n, *args):
            if n in self.hyps:
                return evalf.ev(self.hyps[n], look)
            if n.op == "v":
                v = env[n.args[0]]
                if isinstance(v, bool):
                    return v
                return evalf.mp.mpf(v.numerator) / v.denominator \
                    if isinstance(v, Fraction) else evalf.mp.mpf(v)
            key = (n.args[0],) + tuple(evalf.mp.nstr(a, 30) for a in args)
            if key not in cache:
                h = zlib.crc32(repr((seed, key)).encode())
                x = evalf.mp.mpf(h % 2000 + 1) / 1000
                cache[key] = evalf.mp.floor(x) if n.sort == "I" else (
                    h % 2 == 0 if n.sort == "B" else x)
            return cache[key]
        return look

    def sample_names(self, d, with_pc=True):
        names = set(E.free_vars(d))
        if with_pc:
            for c in self.pc:
                if not has_quant(c):
                    E.free_vars(c, names, set())
        for h, v in self.hyps.items():
            if h in names:
                E.free_vars(v, names, set())
        return names - set(self.hyps)

    def sample_nonzero(self, d, points=6):
        """A point satisfying the hypotheses at which d is not zero."""
        names = self.sample_names(d)
        if self.quantified(d):
            return None
        pcs = [c for c in self.pc if not has_quant(c) and not self.is_def(c)]
        ok = 0
        for k in range(400):
            env = self.sample_env(k, names)
            look = self.evaluator(env, k)
            v = None
            try:
                memo = {}
                if not all(evalf.ev(c, look, memo) for c in pcs):
                    continue
                v = evalf.ev(d, look, memo)
                if not evalf.mp.isfinite(v):
                    continue
                if abs(v) > evalf.mp.mpf(10) ** -25:
                    with evalf.mp.workdps(90):
                        w = evalf.ev(d, self.evaluator(env, k), {})
                    if abs(v - w) < abs(w) * evalf.mp.mpf(10) ** -4:
                        return env, w
                    continue
            except (ZeroDivisionError, ValueError, OverflowError,
                    Unsupported, TypeError, KeyError):
                continue
            ok += 1
            if ok >= points:
                return None
        return None

    def quantified(self, d):
        """Does a quantified hypothesis speak about what d is made of?"""
        mine = E.free_vars(d) | apps(d)
        for c in self.pc:
            if has_quant(c) and (E.free_vars(c) | apps(c)) & mine:
                return True
        return False

    def is_def(self, c):
        return c.op == "==" and (c.args[0] in self.hyps or
                                 c.args[1] in self.hyps)

    def signature(self, d):
        """Values of the residual at fixed points: identifies one specific
        failure (for the known-findings file)."""
        names = self.sample_names(d, False)
        out = []
        for k in range(1000, 1060):
            env = self.sample_env(k, names)
            try:
                v = evalf.ev(d, self.evaluator(env, 7))
                if not evalf.mp.isfinite(v):
                    continue
                out.append(evalf.mp.nstr(v, 8))
            except (ZeroDivisionError, ValueError, OverflowError,
                    Unsupported, TypeError, KeyError):
                continue
            if len(out) == 3:
                break
        return ";".join(out)

    def close_enough(self, a, b):
        return None

    def cover(self, name):
        """Reachability: the hypotheses collected so far are satisfiable."""
        self.ex.covers.setdefault(name, 0)
        self.ex.covers[name] += 1

    def note(self, *a):
        pass


def apps(n):
    out, seen, todo = set(), set(), [n]
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "app":
            out.add(x.args[0])
        todo.extend(a for a in x.args if isinstance(a, E.Node))
    return out


SIMPLE = {}


def simple_int(n):
    """Small, quantifier free, over integer variables only"""
    r = SIMPLE.get(n)
    if r is None:
        seen, todo, r = set(), [n], True
        while todo and r:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            r = x.sort in "BI" and x.op not in (
                "forall", "exists", "app") and len(seen) < 60
            todo.extend(a for a in x.args if isinstance(a, E.Node))
        SIMPLE[n] = r
    return r


def has_quant(n, seen=None):
    if seen is None:
        seen = set()
    if n in seen:
        return False
    seen.add(n)
    if n.op in ("forall", "exists"):
        return True
    return any(has_quant(a, seen) for a in n.args if isinstance(a, E.Node))


class Concrete(Base):
    """Runs a contract on the real code with concrete numbers (cross-check,
    replay of counterexamples, bounded stand-in)."""
    symbolic = False

    def __init__(self, rnd, env=None, tol=1e-6):
        super().__init__()
        self.rnd = rnd
        self.env = dict(env or {})
        self.used = {}
        self.failed = []
        self.checked = 0
        self.tol = tol

    def _get(self, name, gen):
        if name in self.used:
            return self.used[name]
        v = self.env[name] if name in self.env and self.env[name] is not None \
            else gen()
        self.used[name] = v
        return v

    def real(self, name, pos=False, nonneg=False, lo=None, hi=None,
             nonzero=False):
        def gen():
            if lo is not None and hi is not None:
                return self.rnd.uniform(float(lo), float(hi))
            x = self.rnd.choice([
                self.rnd.uniform(.05, 2), self.rnd.uniform(.05, 2),
                10 ** self.rnd.uniform(-2, 1), float(self.rnd.randint(1, 4))])
            if lo is not None:
                return float(lo) + x
            if hi is not None:
                return float(hi) - x
            if not pos and not nonneg and self.rnd.random() < .35:
                x = -x
            return x
        v = float(self._get(name, gen))
        if pos and not v > 0 or nonneg and v < 0 or nonzero and v == 0:
            raise Reject(name)
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject(name)
        return np.float64(v)

    def int(self, name, lo=None, hi=None):
        def gen():
            a = lo if lo is not None else -3
            b = hi if hi is not None else a + self.rnd.choice([3, 8, 20])
            return self.rnd.randint(int(a), int(b))
        v = int(self._get(name, gen))
        if lo is not None and v < lo or hi is not None and v > hi:
            raise Reject(name)
        return v

    def bool(self, name):
        return bool(self._get(name, lambda: self.rnd.random() < .5))

    def choice(self, name, options):
        options = list(options)
        k = self._get("choice:" + name,
                      lambda: self.rnd.randrange(len(options)))
        return options[int(k)]

    def text(self, name, like="word", nonempty=True, domain=None, free=True):
        def gen():
            r = self.rnd
            if not nonempty and r.random() < .3:
                return ""
            if domain is not None:
                return r.choice(list(domain))
            return {"word": lambda: "w%d x" % r.randint(0, 999),
                    "int": lambda: str(r.randint(1, 9999)),
                    "bool": lambda: r.choice(["True", "False", "yes", "0"]),
                    "real": lambda: r.choice([
                        repr(r.uniform(0, 2)), "1/3", "2e-5",
                        "%.12g" % r.uniform(0, 1)])}[like]()
        return self._get("text:" + name, gen)

    def vec(self, name, n=None, cols=None, minlen=0):
        if n is None:
            n = self.int(name + ".len", lo=minlen,
                         hi=minlen + self.rnd.choice([0, 1, 2, 5, 9]))
        n = int(n)

        def gen():
            mode = self.rnd.random()

            def one():
                if mode < .3:
                    return float(self.rnd.randint(-2, 3))
                return self.rnd.uniform(-2, 2) if mode < .6 else \
                    self.rnd.uniform(0, 1.5)
            if cols is None:
                r = [one() for _ in range(n)]
                if mode > .5 and self.rnd.random() < .6:
                    r.sort()
                return r
            return [[one() for _ in range(cols)] for _ in range(n)]
        v = self._get(name, gen)
        a = np.array(v, dtype=float)
        if cols is not None:
            a = a.reshape((n, cols))
        return a

    def sorted_vec(self, name, n=None, minlen=0, strict=True, first=None,
                   last=None):
        if n is None:
            n = self.int(name + ".len", lo=minlen,
                         hi=minlen + self.rnd.choice([0, 1, 2, 5, 9, 20]))
        n = int(n)

        def gen():
            x = float(first) if first is not None else \
                self.rnd.uniform(-.5, .5)
            r = []
            mode = self.rnd.random()
            for _ in range(n):
                r.append(x)
                x += self.rnd.choice([.1, .5, self.rnd.uniform(.01, .7)]) \
                    if mode < .6 else self.rnd.uniform(.01, .15)
                if not strict and self.rnd.random() < .2:
                    x = r[-1]
            if last is not None and r:
                k = float(last)
                if n == 1 and first is not None and r[0] != k:
                    raise Reject(name)
                if n > 1 and not k > r[0]:
                    raise Reject(name)
                a, b = r[0], r[-1]
                if n > 1:
                    r = [a + (y - a) * (k - a) / (b - a) for y in r]
                r[-1] = k
            return r
        v = np.array(self._get(name, gen), dtype=float)
        if len(v) != n or not self.is_sorted(v, strict):
            raise Reject(name)
        return v

    def lemma_rising(self, get, n):
        pass

    def is_sorted(self, v, strict=True):
        v = np.asarray(v, dtype=float)
        return bool(np.all(v[:-1] < v[1:] if strict else v[:-1] <= v[1:]))

    def func(self, name, sort="R"):
        def f(*args):
            key = name + repr([round(float(a), 9) for a in args])
            h = zlib.crc32(key.encode()) % 4000
            x = h / 2000 - .7
            return x if sort == "R" else (
                int(h % 7) if sort == "I" else h % 2 == 0)
        return f

    def le(self, a, b):
        a, b = float(a), float(b)
        return a <= b + 1e-9 * (abs(a) + abs(b) + 1e-3)

    def eq(self, a, b):
        a, b = float(a), float(b)
        return abs(a - b) <= self.tol * (abs(a) + abs(b) + 1e-9)

    def ite(self, c, a, b):
        return a if bool(c) else b

    def real_array(self, names):
        return np.array([self.real(x) if isinstance(x, str) else x
                         for x in names], dtype=float)

    def array(self, x):
        return np.array(x, dtype=float)

    def require(self, c):
        if not bool(c):
            raise Reject()

    def define(self, sym, value):
        raise Unsupported("define in concrete mode")

    def forall_int(self, body, lo, hi):
        return all(bool(body(i)) for i in range(int(lo), int(hi)))

    def exists_int(self, body, lo, hi):
        return any(bool(body(i)) for i in range(int(lo), int(hi)))

    def imply(self, a, b):
        return (not a) or bool(b)

    def length(self, v):
        return len(v)

    def ensure(self, name, cond):
        self.checked += 1
        if not bool(np.all(cond)):
            self.failed.append((name, "condition false"))

    def ensure_vec_eq(self, name, a, b):
        self.ensure_eq(name, a, b)

    def ensure_eq(self, name, a, b, scale=None):
        self.checked += 1
        try:
            a_, b_ = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            self.failed.append((name, "not numeric: %r %r" % (a, b)))
            return
        if a_.shape != b_.shape and a_.ndim and b_.ndim:
            self.failed.append((name, "shape %s against %s" % (
                a_.shape, b_.shape)))
            return
        sc = np.maximum(np.abs(a_), np.abs(b_)) + 1e-9
        if scale is not None:
            sc = np.maximum(sc, np.abs(np.asarray(scale, dtype=float)))
        with np.errstate(all="ignore"):
            bad = ~(np.abs(a_ - b_) <= self.tol * sc) | (
                np.isinf(a_) ^ np.isinf(b_))
        bad &= ~((np.isnan(a_) & np.isnan(b_)) | (a_ == b_))
        if np.any(bad):
            self.failed.append((name, "%s against %s" % (a, b)))

    def cover(self, name):
        pass

    def note(self, *a):
        pass


@contextlib.contextmanager
def quiet():
    import logbook
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        old = sys.stdout
        with logbook.NullHandler().applicationbound():
            with np.errstate(all="ignore"):
                sys.stdout = io.StringIO()
                try:
                    yield
                finally:
                    sys.stdout = old


def interface_changed(e):
    """Did the contract file fail to find or call a function of the package?
    (then the contract cannot be stated on this tree: not a violation)"""
    tb = e.__traceback__
    if tb is None:
        return False
    while tb.tb_next is not None:
        tb = tb.tb_next
    if os.sep + "contracts" + os.sep not in tb.tb_frame.f_code.co_filename:
        return False
    msg = str(e)
    return isinstance(e, ImportError) or (
        isinstance(e, AttributeError) and (
            msg.startswith("module ") or msg.startswith("type object "))) or (
        isinstance(e, TypeError) and re.search(
            r"unexpected keyword argument|required (positional|keyword)"
            r"|positional argument|takes no arguments", msg) is not None)


class Explorer:
    def __init__(self, timeout=20.0, branch_timeout=3.0, max_paths=2000,
                 budget=600.0):
        self.timeout = timeout
        self.branch_timeout = branch_timeout
        self.max_paths = max_paths
        self.deadline = time.time() + budget
        self.obs = []
        self.covers = {}
        self.paths = 0
        self.completed = 0
        self.decisions = []

    def tick(self):
        if len(self.decisions) > 400:
            raise Budget("path too long")
        if time.time() > self.deadline:
            raise Budget("time")

    def run(self, harness):
        """-> None, or the exception that stopped the exploration."""
        self.decisions = []
        while True:
            self.paths += 1
            if self.paths > self.max_paths:
                return Budget("too many paths")
            if time.time() > self.deadline:
                return Budget("time")
            E.reset_fresh()
            cx = Symbolic(self)
            V._ctx[0] = cx
            old = E._decider[0]
            E._decider[0] = cx.decide
            nobs = len(self.obs)
            try:
                with quiet(), time_limit(
                        self.deadline - time.time() + 30, Budget("time")):
                    install_symbolic(cx.patches)
                    harness(cx)
                self.completed += 1
            except Infeasible:
                # obligations met before the contradiction stand
                pass
            except (Unsupported, Budget, ring.TooHard) as e:
                e.tb = traceback.format_exc()
                return e
            except Exception as e:
                # shims leaked, or the code under contract raised
                if interface_changed(e):
                    e = Unsupported("interface: %s" % e)
                e.tb = traceback.format_exc()
                return e
            finally:
                cx.patches.undo()
                V._ctx[0] = None
                E._decider[0] = old
                E.str_hook[0] = None
            d = self.decisions
            while d and d[-1][0] + 1 >= d[-1][1]:
                d.pop()
            if not d:
                return None
            d[-1][0] += 1


def run_concrete(harness, rnd, env=None, tol=1e-6):
    """-> (cx, error or None); raises Reject when the sample does not satisfy
    the preconditions."""
    cx = Concrete(rnd, env, tol)
    try:
        with quiet(), time_limit(20, Hang("no result within 20 s")):
            harness(cx)
        return cx, None
    except (Reject, Unsupported):
        raise
    except Exception as e:
        if interface_changed(e):
            raise Unsupported("interface: %s" % e) from e
        e.tb = traceback.format_exc()
        return cx, e
    finally:
        cx.patches.undo()
