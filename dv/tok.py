"""Opaque text: settings as they travel through configuration files.

A Tok is an unknown text.  The code under contract can move it around; as soon
as it looks at it (compares it, hashes it, tests it for emptiness) the path
forks.  Parsing a text is an assumed function of the text with
parse(str(value)) == value.
"""
import configparser

from . import expr as E
from .expr import Sym, SymB, Unsupported, node

PARSE = (
    "stringtopy's str_to_float/int/bool and the builtin int: reading the text "
    "str(v) of a value v gives v back (the texts are otherwise unknown)")
PARSER = (
    "configparser: what a ConfigParser writes it reads back, option by option "
    "under the name optionxform gives it (for texts without line breaks, "
    "leading or trailing blanks or '%')")

_REG = {}
_TOKCX = [None]


def start(cx):
    _REG.clear()
    _TOKCX[0] = cx
    E.str_hook[0] = text_of


class Tok(str):
    """kind: "in" (an unknown text) or "num" (the text of a number)"""
    def __new__(cls, marker, kind, value=None, domain=None, nonempty=True,
                free=True):
        s = super().__new__(cls, "⟦" + marker + "⟧")
        s.kind, s.value, s.domain, s.nonempty = kind, value, domain, nonempty
        s.free = free       # may it be one of the words it is compared with?
        _REG[str.__str__(s)] = s
        return s

    def _state(self):
        g = _TOKCX[0].ghost.setdefault("tok", {})
        return g.setdefault(str.__str__(self), {"is": None, "not": set()})

    def const(self):
        return self._state()["is"] if self.kind == "in" else None

    def _is(self, c):
        """Is this text the constant c?"""
        if self.kind == "num" or not self.free:
            return False        # only compared with words and ''
        st = self._state()
        if st["is"] is not None:
            return st["is"] == c
        if c in st["not"] or c == "" and self.nonempty:
            return False
        if self.domain is not None and c not in self.domain:
            return False
        if _TOKCX[0].decide_n(2, "text"):
            st["is"] = c
            return True
        st["not"].add(c)
        return False

    def __eq__(self, other):
        if isinstance(other, Tok):
            if str.__eq__(self, other):
                return True
            a, b = self.const(), other.const()
            if a is not None and b is not None:
                return a == b
            if a is not None:
                return other._is(a)
            if b is not None:
                return self._is(b)
            if self.kind == "num" and other.kind == "num":
                return self.value is other.value
            return False        # unknown texts are kept distinct
        if not isinstance(other, str):
            return False
        t = _REG.get(str.__str__(other))
        if t is not None:
            return self == t
        return self._is(str.__str__(other))

    def __ne__(self, other):
        return not self == other

    def __bool__(self):
        return not self == ""

    def __hash__(self):
        if self.kind == "in":
            c = self.const()
            if c is None and self.domain is not None:
                k = _TOKCX[0].decide_n(len(self.domain), "text")
                c = self._state()["is"] = self.domain[k]
            if c is not None:
                return hash(c)
            if not _TOKCX[0].ghost.get("tok_hash"):
                raise Unsupported("hash of an unknown text")
        return str.__hash__(self)

    def __format__(self, spec):
        c = self.const()
        return c if c is not None else str.__str__(self)

    def __str__(self):
        return self


def _blocked(name):
    real = getattr(str, name)

    def method(self, *a, **k):
        c = self.const()
        if c is not None:
            return getattr(c, name)(*a, **k)
        if name in ("strip", "lstrip", "rstrip") and not a:
            return self         # texts have no surrounding blanks
        if self.kind == "num":
            if name == "startswith":
                return False
            if name in ("split", "rsplit") and a:
                return [self]
        raise Unsupported("text method %s" % name)
    method.__name__ = real.__name__
    return method


for _n in dir(str):
    if not _n.startswith("_"):
        setattr(Tok, _n, _blocked(_n))
for _n in ("__contains__", "__getitem__", "__len__", "__iter__", "__mod__",
           "__lt__", "__le__", "__gt__", "__ge__", "__add__"):
    setattr(Tok, _n, _blocked(_n))


def untok(s):
    """the unknown text a plain string stands for, or None"""
    if isinstance(s, Tok):
        return s
    if isinstance(s, str):
        return _REG.get(str.__str__(s))
    return None


def text_of(v):
    """str(number)"""
    n = node(v)
    return Tok("num %d" % n.id, "num", v)


def number(s, sort):
    t = untok(s)
    if t is None:
        return None
    if t.kind == "num":
        return t.value
    c = t.const()
    if c is not None:
        return ("const", c)
    return Sym(E.app("parse%s" % sort, sort, E.var(
        "text " + str.__str__(t)[1:-1], "R")))


def parser(real, sort):
    def parse(s):
        if isinstance(s, (Sym, SymB)):
            raise Unsupported("parsing a number")
        v = number(s, sort)
        if v is None:
            return real(s)
        if isinstance(v, tuple):
            return real(v[1])
        return v
    return parse


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, int)


class Int(int, metaclass=_IntMeta):
    """The builtin int, with texts."""
    def __new__(cls, x=0, *a):
        t = untok(x)
        if t is None:
            if isinstance(x, Sym):
                if x.n.sort == "I":
                    return x
                raise Unsupported("int() of a symbolic value")
            return int(x, *a)
        v = number(t, "I")
        return int(v[1]) if isinstance(v, tuple) else v


class Section(dict):
    def __init__(self, parser):
        super().__init__()
        self.parser = parser

    def __setitem__(self, k, v):
        if not isinstance(v, str):
            raise TypeError("option values must be strings")
        super().__setitem__(self.parser.optionxform(k), v)

    def __getitem__(self, k):
        return super().__getitem__(self.parser.optionxform(k))


class TextFile:
    """The sections written to or to be read from a file."""
    def __init__(self, sections=None):
        self.sections = sections

    def open(self, *a, **k):
        return self

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


_MISSING = object()


def parser_model(real):
    class Model:
        """configparser.ConfigParser, by its contract."""
        optionxform = real.optionxform

        def __init__(self, *a, **k):
            if a or k:
                raise Unsupported("ConfigParser arguments")
            self._s = {}

        def __setitem__(self, name, opts):
            s = self._s[name] = Section(self)
            for k, v in opts.items():
                s[k] = v

        def __getitem__(self, name):
            return self._s[name]

        def __contains__(self, name):
            return name in self._s

        def sections(self):
            return list(self._s)

        def has_section(self, name):
            return name in self._s

        def add_section(self, name):
            if name in self._s:
                raise configparser.DuplicateSectionError(name)
            self._s[name] = Section(self)

        def has_option(self, s, o):
            return s in self._s and self.optionxform(o) in self._s[s]

        def set(self, s, o, v=None):
            self._s[s][o] = v

        def read_dict(self, d):
            for s, opts in d.items():
                if s not in self._s:
                    self._s[s] = Section(self)
                for k, v in opts.items():
                    self._s[s][k] = str(v)

        def options(self, s):
            return list(self._s[s])

        def items(self, s=_MISSING):
            return self._s.items() if s is _MISSING else \
                list(self._s[s].items())

        def get(self, s, o, *, raw=False, vars=None, fallback=_MISSING):
            if self.has_option(s, o):
                return self._s[s][o]
            if fallback is _MISSING:
                raise configparser.NoOptionError(o, s)
            return fallback

        def write(self, f, space_around_delimiters=True):
            f.sections = {k: dict(v) for k, v in self._s.items()}

        def read_file(self, f, source=None):
            for s, opts in (f.sections or {}).items():
                if s not in self._s:
                    self._s[s] = Section(self)
                for k, v in opts.items():
                    self._s[s][k] = v

        def read(self, f, encoding=None):
            for x in f if isinstance(f, (list, tuple)) else [f]:
                self.read_file(x)
            return [f]
    return Model


def install(cx):
    """symbolic mode only: texts, parsing, configuration files"""
    from disc_solver import utils as U
    start(cx)
    from .core import modules
    for name, sort in (("str_to_float", "R"), ("str_to_int", "I")):
        real = getattr(U, name)
        cx.stub(real, parser(real, sort))
    cx.stub(U.str_to_bool, _boolparse(U.str_to_bool))
    cx.stub(U.CaseDependentConfigParser,
            parser_model(U.CaseDependentConfigParser))
    for m in modules():
        d = vars(m)
        if "int" not in d:
            cx.patches.set(d, "int", Int)


def _boolparse(real):
    def parse(s):
        t = untok(s)
        if t is None:
            return real(s)
        if t.kind == "num":
            raise Unsupported("truth of a number's text")
        c = t.const()
        if c is not None:
            return real(c)
        return SymB(E.app("parseB", "B", E.var(
            "text " + str.__str__(t)[1:-1], "R")))
    return parse

