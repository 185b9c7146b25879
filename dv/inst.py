"""Ground instantiation of quantified facts over integer indices.

Facts are put in negation normal form, existentials become fresh constants,
and universals are instantiated with the index terms that occur in the ground
part (matching index patterns `var + constant`).  Instances are consequences
of the facts, so an unsatisfiable ground problem proves the goal; anything
else says nothing.
"""
import itertools
import time

import z3

from . import expr as E

_sk = itertools.count()
MAX_INST = 2500


class Giveup(Exception):
    pass


def has_quant(n, memo):
    r = memo.get(n)
    if r is None:
        r = n.op in ("forall", "exists") or any(
            has_quant(a, memo) for a in n.args if isinstance(a, E.Node))
        memo[n] = r
    return r


def lin(n):
    """Linear form {atom: coefficient} (None key: constant) of an int term."""
    if n.op == "c":
        return {None: n.args[0]}
    if n.op == "+":
        a, b = lin(n.args[0]), lin(n.args[1])
        for k, v in b.items():
            a[k] = a.get(k, 0) + v
        return {k: v for k, v in a.items() if v != 0}
    if n.op == "*":
        for x, y in (n.args, n.args[::-1]):
            if x.op == "c":
                return {k: v * x.args[0] for k, v in lin(y).items()
                        if v * x.args[0] != 0}
    return {n: 1}


def unlin(d):
    t = E.const(int(d.get(None, 0)))
    for k in sorted((k for k in d if k is not None), key=lambda k: k.id):
        c = d[k]
        t = E.add(t, k if c == 1 else E.mul(E.const(int(c)), k))
    return t


def canon(n):
    d = lin(n)
    if any(v.denominator != 1 for v in d.values() if not isinstance(v, int)):
        return n
    return unlin(d)


GUARDS, SKOLEMS = {}, {}


_weight = {}


def weight(n):
    """How far an index term is from those of the problem: index functions
    nested in it, and offsets"""
    d = _weight.get(n)
    if d is None:
        d = max([weight(a) for a in n.args if isinstance(a, E.Node)] + [0])
        if n.op == "app":
            d += 1
        elif n.op == "c" and n.sort == "I":
            d = min(abs(int(n.args[0])), 4)
        _weight[n] = d
    return d


class Prover:
    def __init__(self, facts):
        self.solver = None
        self.pmemo = {}
        self.q = {}
        self.ground = []
        self.gset = set()
        self.univ = []          # (guard, var, body)
        self.useen = {}
        self.done = set()
        self.terms = {}         # function name -> ordered dict of arg tuples
        self.ints = {}          # integer index terms
        self.skolems = {}       # the first ones
        self.count = 0
        self.scanned = set()
        for f in facts:
            self.assert_(f, None)

    # ---- facts
    def assert_(self, n, guard):
        """guard -> n, in the ground/universal stores."""
        g = self.reduce(n, True)
        if guard is not None:
            g = E.bor(E.bnot(guard), g)
        if g is E.TRUE:
            return
        if g not in self.gset:
            self.gset.add(g)
            self.ground.append(g)
            self.scan(g)

    def reduce(self, n, pos):
        """Quantifier-free node implied by n (pos) / by not n."""
        if not has_quant(n, self.q):
            return n if pos else E.bnot(n)
        o = n.op
        if o == "not":
            return self.reduce(n.args[0], not pos)
        if o == "and":
            parts = [self.reduce(a, pos) for a in n.args]
            return E.band(*parts) if pos else E.bor(*parts)
        if o == "iff":
            a, b = n.args
            return self.reduce(E.bnot(E.band(
                E.bnot(E.band(a, b)),
                E.bnot(E.band(E.bnot(a), E.bnot(b))))), pos)
        if o in ("forall", "exists"):
            v, body = n.args
            univ = (o == "forall") == pos
            if univ:
                # instance guard
                key = (n, pos)
                if key in self.useen:
                    return self.useen[key]
                # the same names for the same formula in every query
                g = GUARDS.get(key)
                if g is None:
                    g = GUARDS[key] = E.var("?g%d" % next(_sk), "B")
                self.useen[key] = g
                self.univ.append((g, v, body if pos else E.bnot(body)))
                return g
            c = SKOLEMS.get((n, pos))
            if c is None:
                c = SKOLEMS[n, pos] = E.var("?s%d" % next(_sk), v.sort)
            if v.sort == "I":
                self.addint(c)
                if len(self.skolems) < 8:
                    self.skolems.setdefault(c, None)
            return self.reduce(E.subst(body, {v: c}), pos)
        raise Giveup("quantifier inside " + o)

    def addint(self, t):
        t = canon(t)
        if len(self.ints) < 40:
            self.ints.setdefault(t, None)

    def scan(self, n):
        todo = [n]
        while todo:
            x = todo.pop()
            if x in self.scanned:
                continue
            self.scanned.add(x)
            if x.op == "app":
                args = x.args[1:]
                if len(args) == 1 and args[0].sort == "I":
                    t = canon(args[0])
                    self.terms.setdefault(x.args[0], {}).setdefault(t, None)
                    self.addint(t)
            for a in x.args:
                if isinstance(a, E.Node):
                    todo.append(a)

    # ---- instantiation
    def patterns(self, v, body, memo):
        r = memo.get(body)
        if r is None:
            pats = set()
            seen = set()

            def go(x):
                if x in seen:
                    return
                seen.add(x)
                if x.op == "app":
                    args = x.args[1:]
                    if len(args) == 1 and args[0].sort == "I":
                        d = lin(args[0])
                        c = d.get(v, 0)
                        if c in (1, -1) and not any(
                                k is not None and k is not v and
                                self.mentions(k, v) for k in d):
                            pats.add((x.args[0], c, tuple(
                                (k, val) for k, val in d.items()
                                if k is not v)))
                for a in x.args:
                    if isinstance(a, E.Node):
                        go(a)
            go(body)
            r = memo[body] = pats
        return r

    def ends(self, v, body):
        """First and last index of the range the body is guarded with."""
        out = [E.const(0)]
        todo, seen = [body], set()
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "<" and x.args[0] is v and not self.mentions(
                    x.args[1], v) and not any(
                        f.args[0].startswith("?b")
                        for f in E.free_vars(x.args[1])):
                out.append(E.sub(x.args[1], E.const(1)))
            if x.op in ("and", "or", "not"):
                todo.extend(x.args)
        return out

    def mentions(self, n, v):
        return v in E.free_vars(n)

    def candidates(self, v, body):
        pats = self.patterns(v, body, self.pmemo)
        out = {}
        for f, c, rest in pats:
            # patterns mentioning inner bound variables do not determine v
            if any(k is not None and any(
                    fv.args[0].startswith("?b") for fv in E.free_vars(k))
                    for k, _ in rest):
                continue
            for t in self.terms.get(f, {}):
                d = dict(lin(t))
                for k, val in rest:
                    d[k] = d.get(k, 0) - val
                if c == -1:
                    d = {k: -val for k, val in d.items()}
                out.setdefault(unlin({k: val for k, val in d.items()
                                      if val != 0 or k is None}), None)
            if rest:
                # offsets into a slice: its ends as well
                for t in self.ends(v, body):
                    out.setdefault(canon(t), None)
        if not pats:
            for t in self.ints:
                out.setdefault(t, None)
        return list(out)

    def round(self, limit=99):
        new = False
        for g, v, body in list(self.univ):
            if v.sort != "I":
                continue
            ts = self.candidates(v, body)
            ts += [t for t in self.skolems if t not in ts]
            for t in ts:
                key = (g, t)
                if key in self.done or weight(t) > limit:
                    continue
                self.done.add(key)
                self.count += 1
                if self.count > MAX_INST:
                    raise Giveup("too many instances")
                self.assert_(E.subst(body, {v: t}), g)
                new = True
        return new

    def solve(self, timeout):
        from . import smt
        if self.solver is None:
            self.tr = smt.GroundTrans()
            self.solver = z3.Solver()
            self.told = 0
        s = self.solver
        s.set("timeout", int(timeout * 1000))
        for a in self.ground[self.told:]:
            s.add(self.tr.go(a))
        self.told = len(self.ground)
        for a in self.tr.new_axioms():
            s.add(a)
        return s.check()


def unsat(facts, timeout, rounds=4):
    """True when the facts are shown contradictory by ground instances."""
    try:
        p = Prover(facts)
    except Giveup:
        return False
    end = time.monotonic() + 3 * timeout
    told = None
    try:
        for limit in (1, 2, 99):
            for k in range(rounds):
                if not p.round(limit) and told == p.count:
                    break
                told = p.count
                if p.solve(timeout) == z3.unsat:
                    return True
                if time.monotonic() > end:
                    return False
    except Giveup:
        return p.solve(timeout) == z3.unsat
    return False
