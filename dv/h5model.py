"""HDF5 files for symbolic runs: an in-memory stand-in for the part of h5py
which h5preserve uses, so that h5preserve itself, the dumpers and the loaders
run unchanged on symbolic values. Concrete runs use h5py and real files, which
cross-checks this model."""
import shutil
import tempfile
from pathlib import Path
from types import SimpleNamespace

import h5preserve
import h5preserve._utils as hu
import h5preserve.additional_registries as ha
import h5py
import numpy as np

from . import expr as E
from . import npshim as S
from . import tok
from . import vec

STORE = ("h5py stores and returns arrays, numbers, truth values, texts and "
         "empty datasets unchanged, and lists the members of a group by name")


class PyNum(E.Sym):
    """A symbolic number that is a Python float or int, not a numpy one"""
    __slots__ = ("kind",)

    def __init__(self, n, kind):
        super().__init__(n)
        self.kind = kind


class PyFloat(PyNum):
    __slots__ = ()

    def __init__(self, n):
        super().__init__(n, "float")


class PyInt(PyNum):
    __slots__ = ()

    def __init__(self, n):
        super().__init__(n, "int")


SYM = (E.Sym, E.SymB, vec.SVec, S.SArr)


def stored(v):
    """What h5py gives back for a value"""
    if isinstance(v, (vec.SVec, S.SArr)):
        return v.copy()
    if isinstance(v, PyNum):
        return E.wrap(v.n)
    if isinstance(v, SYM) or isinstance(v, tok.Tok):
        return v
    if isinstance(v, (str, bytes)):
        return v
    a = np.array(v)
    if a.dtype == object:
        raise TypeError("Object dtype %r has no native HDF5 equivalent" % (v,))
    return a if a.ndim else a[()]


class Attrs(dict):
    def __setitem__(self, k, v):
        dict.__setitem__(self, k, stored(v))

    def update(self, other):
        for k, v in dict(other).items():
            self[k] = v


class Dataset:
    def __init__(self, data=None, dtype=None, **k):
        self.attrs = Attrs()
        self.empty = data is None
        self.data = None if data is None else stored(data)
        if isinstance(self.data, str) and not isinstance(self.data, tok.Tok):
            self.data = self.data.encode("utf8")
        self.fillvalue = None
        self.dtype = dtype
        self.shape = getattr(self.data, "shape", ())

    def __getitem__(self, k):
        if k != ():
            raise E.Unsupported("part of a dataset")
        if self.empty:
            return h5py.Empty("f")
        return stored(self.data)


class Group:
    def __init__(self, file=None):
        self.attrs = Attrs()
        self.members = {}
        self.file = file or self

    def place(self, k, v):
        if not isinstance(k, str):
            raise TypeError("names are texts")
        if k in self.members or not k or "/" in k:
            raise ValueError("Unable to create %s" % k)
        self.members[k] = v
        return v

    def create_group(self, k):
        return self.place(k, Group(self.file))

    def require_group(self, k):
        return self.members[k] if k in self.members else self.create_group(k)

    def create_dataset(self, k, **kw):
        return self.place(k, Dataset(**kw))

    def __setitem__(self, k, v):
        if isinstance(v, (Group, Dataset)):
            self.place(k, v)
        else:
            self.place(k, Dataset(data=v))

    def __getitem__(self, k):
        x = self
        for part in k.strip("/").split("/"):
            if not part:
                continue
            x = x.members[part]
        return x

    def __delitem__(self, k):
        del self.members[k]

    def __iter__(self):
        return iter(sorted(self.members))

    def __len__(self):
        return len(self.members)

    def __contains__(self, k):
        return k in self.members

    def keys(self):
        return list(self)

    def items(self):
        return [(k, self.members[k]) for k in self]

    def get(self, k, default=None):
        return self.members.get(k, default)


class Files:
    """The file system"""
    def __init__(self):
        self.files = {}

    def File(self, filename, mode="r", **kw):
        name = str(filename)
        if mode in ("x", "w-") and name in self.files:
            raise FileExistsError("Unable to create file")
        if mode in ("r", "r+") and name not in self.files:
            raise FileNotFoundError(name)
        if mode in ("x", "w-", "w") or name not in self.files:
            self.files[name] = Group()
        return Opened(self.files[name], mode)


class Opened:
    def __init__(self, root, mode):
        self.root = root
        self.mode = mode

    def __getitem__(self, k):
        return self.root if k == "/" else self.root[k]

    def __setitem__(self, k, v):
        self.root[k] = v

    def __iter__(self):
        return iter(self.root)

    def close(self):
        pass


class Disk:
    """One scratch place for files: a directory, or the model."""
    def __init__(self, cx):
        self.cx = cx
        self.dir = Path("/model")
        if cx.symbolic:
            install(cx)

    def __enter__(self):
        if not self.cx.symbolic:
            self.dir = Path(tempfile.mkdtemp(prefix="dv-h5-"))
        return self

    def __exit__(self, *a):
        if not self.cx.symbolic:
            shutil.rmtree(self.dir)

    def path(self, name):
        return self.dir / name


def install(cx):
    files = Files()
    fake = SimpleNamespace(
        File=files.File, Group=Group, Dataset=Dataset, Empty=h5py.Empty,
        SoftLink=h5py.SoftLink, ExternalLink=h5py.ExternalLink)
    cx.patch(h5preserve, "h5py", fake)
    cx.patch(hu, "EXTERNAL_DUMPED_TYPES", hu.EXTERNAL_DUMPED_TYPES)
    ext = set(hu.EXTERNAL_DUMPED_TYPES)

    def external(obj):
        if isinstance(obj, (Group, Dataset)):
            return True
        if isinstance(obj, PyNum):
            return False
        if isinstance(obj, SYM):
            return not isinstance(obj, E.SymB)
        return isinstance(obj, tuple(ext))
    cx.patch(h5preserve, "_is_externally_dumped", external)

    def writable(obj):
        return external(obj) and not isinstance(obj, (Group, Dataset)) or \
            isinstance(obj, (h5py.SoftLink, h5py.ExternalLink))
    cx.patch(h5preserve, "_is_h5py_writable", writable)

    def attr(obj):
        return isinstance(obj, SYM) or isinstance(
            obj, tuple(hu.H5PY_ATTR_WRITABLE_TYPES))
    cx.patch(h5preserve, "_is_attr_writeable", attr)
    for reg, new, old in (
            (ha.builtin_text_registry, tok.Tok, str),
            (ha.builtin_numbers_registry, PyFloat, float),
            (ha.builtin_numbers_registry, PyInt, int),
            (ha.bool_python_registry, E.SymB, bool)):
        cx.patches.set(reg.dumpers, new, reg.dumpers[old])
    cx.patches.set(ha.bool_python_registry.loaders, "bool", {
        None: lambda d: d["data"] if isinstance(d["data"], E.SymB)
        else bool(d["data"])})
