"""Exact decision of equalities between algebraic expressions.

An expression over +,-,*,/, integer powers, sqrt, sin, cos, fractional powers
and opaque atoms is turned into a fraction num/den of polynomials over Q in
its atoms.  Relations used (all listed as the trusted rules of this back end):
  sqrt(e)^2 = e,  sin^2+cos^2 = 1,  x^(a+b) = x^a x^b (x > 0),
  f(e) = f(e') when e, e' have the same normal form (congruence).
a == b is proved when the numerator of a-b reduces to the zero polynomial;
denominators are assumed non-zero (the expression is defined).
"""
from fractions import Fraction

from . import expr as E


class TooHard(Exception):
    pass


class Poly:
    """Sparse multivariate polynomial: {monomial: Fraction};
    monomial = tuple of (atom_index, exp) sorted."""
    __slots__ = ("t",)

    def __init__(self, t):
        self.t = t

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        t = dict(self.t)
        for m, c in o.t.items():
            v = t.get(m)
            if v is None:
                t[m] = c
            else:
                v = v + c
                if v:
                    t[m] = v
                else:
                    del t[m]
        return Poly(t)

    def scale(self, c):
        if not c:
            return Poly({})
        return Poly({m: v * c for m, v in self.t.items()})

    def __neg__(self):
        return self.scale(-1)

    def __sub__(self, o):
        return self + (-o)

    def __bool__(self):
        return bool(self.t)

    def key(self):
        return frozenset(self.t.items())

    def const(self):
        """Fraction if constant else None."""
        if not self.t:
            return Fraction(0)
        if len(self.t) == 1 and () in self.t:
            return self.t[()]
        return None


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


LIMIT = 400000


class Normaliser:
    def __init__(self, hyps=()):
        """hyps: {node: node} rewriting of variables by expressions."""
        self.atoms = []          # index -> description
        self.index = {}          # key -> index
        self.rel = {}            # index -> ('sq', num Poly, den factors) ...
        self.memo = {}
        self.side = set()        # denominators met (as polys)
        self.hyps = dict(hyps)

    # -- atoms
    def atom(self, key):
        i = self.index.get(key)
        if i is None:
            i = len(self.atoms)
            self.index[key] = i
            self.atoms.append(key)
        return i

    def P(self, c):
        c = Fraction(c)
        return Poly({(): c} if c else {})

    def A(self, i):
        return Poly({((i, 1),): Fraction(1)})

    def pmul(self, a, b):
        if len(a.t) * len(b.t) > 4 * LIMIT:
            raise TooHard("product too large")
        t = {}
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m = mono_mul(m1, m2)
                t[m] = t.get(m, 0) + c1 * c2
        p = Poly({m: c for m, c in t.items() if c})
        if len(p.t) > LIMIT:
            raise TooHard("polynomial too large")
        return self.reduce(p)

    def reduce(self, p):
        """Apply polynomial relations x^2 = q (q polynomial)."""
        while True:
            todo = None
            for m in p.t:
                for i, e in m:
                    if e >= 2 and i in self.rel:
                        todo = True
                        break
                if todo:
                    break
            if not todo:
                return p
            out = Poly({})
            acc = {}
            for m, c in p.t.items():
                k = None
                for i, e in m:
                    if e >= 2 and i in self.rel:
                        k = i
                        break
                if k is None:
                    acc[m] = acc.get(m, 0) + c
                    continue
                e = dict(m)[k]
                rest = tuple(x for x in m if x[0] != k)
                if e % 2:
                    rest = mono_mul(rest, ((k, 1),))
                q = self.rel[k]
                qq = self.P(1)
                for _ in range(e // 2):
                    qq = self.rawmul(qq, q)
                for m2, c2 in qq.t.items():
                    mm = mono_mul(rest, m2)
                    acc[mm] = acc.get(mm, 0) + c * c2
            out = Poly({m: c for m, c in acc.items() if c})
            p = out

    def rawmul(self, a, b):
        t = {}
        for m1, c1 in a.t.items():
            for m2, c2 in b.t.items():
                m = mono_mul(m1, m2)
                t[m] = t.get(m, 0) + c1 * c2
        return Poly({m: c for m, c in t.items() if c})

    # -- fractions: (num, {factor_key: (poly, exp)})
    def frac(self, p):
        return (p, {})

    def fadd(self, a, b):
        (n1, d1), (n2, d2) = a, b
        if not n1:
            return b
        if not n2:
            return a
        l1, l2 = self.P(1), self.P(1)
        d = dict(d1)
        for k, (p, e) in d2.items():
            e1 = d1.get(k, (p, 0))[1]
            if e > e1:
                for _ in range(e - e1):
                    l1 = self.pmul(l1, p)
                d[k] = (p, e)
        for k, (p, e) in d1.items():
            e2 = d2.get(k, (p, 0))[1]
            if e > e2:
                for _ in range(e - e2):
                    l2 = self.pmul(l2, p)
        n = self.pmul(n1, l1) + self.pmul(n2, l2)
        return self.norm(n, d)

    def norm(self, n, d):
        if not n:
            return (n, {})
        return (n, d)

    def fmul(self, a, b):
        (n1, d1), (n2, d2) = a, b
        d = dict(d1)
        for k, (p, e) in d2.items():
            d[k] = (p, d.get(k, (p, 0))[1] + e)
        # cancel whole numerator factors
        n1k, n2k = self.monic(n1), self.monic(n2)
        out = []
        for n, nk in ((n1, n1k), (n2, n2k)):
            if nk is not None and nk[0] in d:
                k, c = nk
                p, e = d[k]
                if e == 1:
                    del d[k]
                else:
                    d[k] = (p, e - 1)
                n = self.P(c)
            out.append(n)
        return self.norm(self.pmul(out[0], out[1]), d)

    def monic(self, p):
        if not p.t or p.const() is not None:
            return None
        m = min(p.t)
        c = p.t[m]
        return (p.scale(1 / c).key(), c)

    def finv(self, a):
        n, d = a
        if not n:
            raise ZeroDivisionError
        num = self.P(1)
        for k, (p, e) in d.items():
            for _ in range(e):
                num = self.pmul(num, p)
        c = n.const()
        if c is not None:
            return (num.scale(1 / c), {})
        # monomial denominators split into their atoms
        den = {}
        if len(n.t) == 1:
            (m, c), = n.t.items()
            num = num.scale(1 / c)
            for i, e in m:
                p = self.A(i)
                # x in the denominator with x^2 = q polynomial: keep as factor
                den[p.key()] = (p, e)
            return (num, den)
        # content: common monomial factor
        common = None
        for m in n.t:
            dm = dict(m)
            if common is None:
                common = dm
            else:
                common = {i: min(e, dm[i]) for i, e in common.items()
                          if i in dm}
            if not common:
                break
        if common:
            t = {}
            for m, c in n.t.items():
                t[tuple((i, e - common.get(i, 0)) for i, e in m
                        if e - common.get(i, 0))] = c
            n = Poly(t)
            for i, e in common.items():
                p = self.A(i)
                den[p.key()] = (p, e)
        k, c = self.monic(n)
        p = n.scale(1 / c)
        den[k] = (p, den.get(k, (p, 0))[1] + 1)
        return (num.scale(1 / c), den)

    # -- evaluation
    def go(self, n):
        r = self.memo.get(n)
        if r is None:
            r = self._go(n)
            self.memo[n] = r
        return r

    def key(self, n):
        """Canonical key of an expression (for congruence)."""
        num, den = self.go(n)
        return (num.key(), frozenset((k, e) for k, (p, e) in den.items()))

    def _go(self, n):
        if n in self.hyps:
            return self.go(self.hyps[n])
        o = n.op
        if o == "c":
            return self.frac(self.P(n.args[0]))
        if o == "v":
            return self.frac(self.A(self.atom(("v", n.args[0]))))
        if o == "+":
            return self.fadd(self.go(n.args[0]), self.go(n.args[1]))
        if o == "*":
            return self.fmul(self.go(n.args[0]), self.go(n.args[1]))
        if o == "/":
            return self.fmul(self.go(n.args[0]),
                             self.finv(self.go(n.args[1])))
        if o == "^":
            b = self.go(n.args[0])
            r = b
            for _ in range(n.args[1] - 1):
                r = self.fmul(r, b)
            return r
        if o == "toreal":
            return self.go(n.args[0])
        if o == "f":
            return self.func(n.args[0], n.args[1:])
        if o == "app":
            k = ("app", n.args[0]) + tuple(self.key(a) for a in n.args[1:])
            return self.frac(self.A(self.atom(k)))
        if o in ("ite", "idiv", "imod"):
            k = (o, n.id)
            if o == "ite":
                k = ("ite", n.args[0].id, self.key(n.args[1]),
                     self.key(n.args[2]))
            return self.frac(self.A(self.atom(k)))
        raise TooHard("op " + o)

    def func(self, name, args):
        if name == "sqrt":
            return self.sqrt(self.go(args[0]))
        if name in ("sin", "cos"):
            num, den = self.go(args[0])
            # sign normalisation: sin(-x) = -sin x
            sgn = 1
            k = self.monic(num)
            if k is not None and k[1] < 0:
                num = num.scale(-1)
                sgn = -1
            key = (num.key(), frozenset((kk, e) for kk, (p, e) in den.items()))
            c = self.atom(("cos", key))
            s = self.atom(("sin", key))
            if s not in self.rel:
                self.rel[s] = self.P(1) - self.rawmul(self.A(c), self.A(c))
            if name == "cos":
                return self.frac(self.A(c))
            return self.frac(self.A(s).scale(sgn))
        if name == "pow":
            return self.pow(args[0], args[1])
        k = ("f", name) + tuple(self.key(a) for a in args)
        return self.frac(self.A(self.atom(k)))

    def sqrt(self, f):
        num, den = f
        # sqrt(n/d) = sqrt(n*d)/d   (d > 0 where the root is real and
        # positive; for a negative d the sign would matter, so only factors
        # with even exponent are pulled out and the rest kept inside)
        if not den:
            # pull out square content of monomials is not needed
            k = ("sqrt", num.key())
            i = self.atom(k)
            if i not in self.rel:
                self.rel[i] = num
            return self.frac(self.A(i))
        inner = num
        outer = {}
        for k, (p, e) in den.items():
            # 1/p^e = p^(e%2) / p^(2*ceil(e/2)); sqrt(x/q^2) = sqrt(x)/|q|
            if e % 2:
                inner = self.pmul(inner, p)
            outer[k] = (p, (e + 1) // 2)
        # |q|: an atom with abs^2 = q^2 is the honest thing
        k = ("sqrt", inner.key())
        i = self.atom(k)
        if i not in self.rel:
            self.rel[i] = inner
        r = self.frac(self.A(i))
        for k, (p, e) in outer.items():
            if e % 2 == 0:
                r = self.fmul(r, (self.P(1), {k: (p, e)}))
                continue
            if self.positive(p):
                r = self.fmul(r, (self.P(1), {k: (p, e)}))
                continue
            a = self.atom(("abs", k))
            if a not in self.rel:
                self.rel[a] = self.rawmul(p, p)
            for _ in range(e):
                r = self.fmul(r, self.finv(self.frac(self.A(a))))
        return r

    pos_vars = frozenset()

    def positive(self, p):
        """Syntactic positivity: all monomials positive under pos atoms."""
        for m, c in p.t.items():
            if c < 0:
                return False
            for i, e in m:
                if e % 2 and not self.pos_atom(i):
                    return False
        return () in p.t or any(
            all(self.pos_atom(i) for i, e in m) for m in p.t)

    def pos_atom(self, i):
        a = self.atoms[i]
        return (a[0] == "v" and (a[1] in self.pos_vars or a[1] == "π")) or \
            a[0] in ("powatom", "sqrt", "abs")

    def pow(self, base, expo):
        en, ed = self.go(expo)
        bkey = self.key(base)
        basef = self.go(base)
        bnum, bden = basef
        # pow(sqrt(z), e) = pow(z, e/2);  sqrt atom alone
        one = None
        if not bden and len(bnum.t) == 1:
            (m, c), = bnum.t.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and \
                    self.atoms[m[0][0]][0] == "sqrt":
                one = self.rel[m[0][0]]
        if one is not None:
            en = en.scale(Fraction(1, 2))
            bkey = (one.key(), frozenset())
            basef = self.frac(one)
        r = self.frac(self.P(1))
        dk = frozenset((k, e) for k, (p, e) in ed.items())
        for m, c in sorted(en.t.items()):
            if m == () and not ed:
                ip = c.numerator // c.denominator
                fp = c - ip
                b = basef if ip >= 0 else self.finv(basef)
                for _ in range(abs(ip)):
                    r = self.fmul(r, b)
                if fp:
                    # x^(fp): through roots of two when possible
                    den = fp.denominator
                    if den & (den - 1) == 0:
                        x = basef
                        k = fp.numerator
                        bits = []
                        while den > 1:
                            x = self.sqrt(x)
                            den //= 2
                        for _ in range(k):
                            r = self.fmul(r, x)
                    else:
                        a = self.atom(("powatom", bkey, (), Fraction(
                            1, fp.denominator), dk))
                        for _ in range(fp.numerator):
                            r = self.fmul(r, self.frac(self.A(a)))
                continue
            a = self.atom(("powatom", bkey, m, Fraction(1, c.denominator), dk))
            f = self.frac(self.A(a))
            if c.numerator < 0:
                f = self.finv(f)
            for _ in range(abs(c.numerator)):
                r = self.fmul(r, f)
        return r


def is_zero(n, hyps=(), pos=()):
    """True when the node is identically zero; False when its normal form is a
    non-zero polynomial (not a refutation by itself: sampling decides)."""
    nz = Normaliser(hyps)
    nz.pos_vars = frozenset(pos)
    num, den = nz.go(n)
    num = nz.reduce(num)
    # eliminate denominators hidden in relations with sqrt in den: multiply
    return not num, len(num.t)
