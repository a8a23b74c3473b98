"""Array-backed stand-ins for the parts of pandas the time series and the hydro units use.

What is missing raises Missing (an AttributeError and a NotImplementedError): the case is discarded, never a failure.
"""
import datetime as dt

import numpy as np


class Missing(AttributeError, NotImplementedError):
    pass


class _Base:
    def __getattr__(self, n):
        if n.startswith("__array") or n in ("__len__", "__deepcopy__", "__getstate__", "__setstate__"):
            raise AttributeError(n)
        raise Missing("%s.%s" % (type(self).__name__, n))


class Timestamp(dt.datetime):
    """A point in time, with the calls of pandas the package makes."""

    def to_julian_date(self):
        return (self - dt.datetime(1858, 11, 17)).total_seconds() / 86400 + 2400000.5

    def round(self, _):
        return self

    @property
    def dayofyear(self):
        return self.timetuple().tm_yday

    day_of_year = dayofyear


def stamp(v):
    if isinstance(v, Timestamp):
        return v
    if isinstance(v, dt.datetime):
        return Timestamp(v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)
    if isinstance(v, dt.date):
        return Timestamp(v.year, v.month, v.day)
    if isinstance(v, np.datetime64):
        return stamp(v.astype("datetime64[us]").astype(dt.datetime))
    if isinstance(v, str):
        return stamp(dt.datetime.fromisoformat(v))
    raise Missing("Timestamp of %s" % type(v).__name__)


def raw(v):
    if isinstance(v, NSeries):
        return v._a
    if isinstance(v, dt.datetime):
        return np.datetime64(v.replace(tzinfo=None), "ns")
    return v


class NSeries(_Base):
    """A column or an index: labels 0..n-1 unless told otherwise."""

    def __init__(self, a, index=None, name=None):
        self._a = np.asarray(a)
        self._i = list(range(len(self._a))) if index is None else list(index)
        self.name = name

    def __array__(self, dtype=None, copy=None):
        return self._a if dtype is None else self._a.astype(dtype)

    def _new(self, a):
        return NSeries(a, self._i, self.name)

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        if self._a.dtype.kind == "M":
            return iter([stamp(x) for x in self._a])
        return iter(self._a)

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            v = self._a[self._i.index(int(k))]
            return stamp(v) if self._a.dtype.kind == "M" else v
        if isinstance(k, slice):
            return NSeries(self._a[k], self._i[k], self.name)
        m = np.asarray(k)
        if m.dtype == bool:
            return NSeries(self._a[m], [i for i, b in zip(self._i, m) if b], self.name)
        raise Missing("NSeries[%r]" % (k,))

    values = property(lambda s: s._a)
    array = values
    index = property(lambda s: NSeries(np.asarray(s._i)))
    dtype = property(lambda s: s._a.dtype)
    shape = property(lambda s: s._a.shape)
    size = property(lambda s: s._a.size)
    ndim = property(lambda s: s._a.ndim)
    empty = property(lambda s: s._a.size == 0)
    dt = property(lambda s: s)
    iloc = property(lambda s: _Pos(s))
    iat = iloc
    loc = property(lambda s: s)

    def to_numpy(self, dtype=None, copy=False):
        a = self._a if dtype is None else self._a.astype(dtype)
        return a.copy() if copy else a

    def tolist(self):
        return list(self)

    to_list = tolist

    def copy(self, deep=True):
        return self._new(self._a.copy())

    def astype(self, t):
        return self._new(self._a.astype(t))

    def item(self):
        return self._a.item()

    def reset_index(self, drop=False):
        return NSeries(self._a)

    def sum(self, axis=None):
        return self._a.sum()

    def mean(self):
        return self._a.mean()

    def min(self):
        return self._a.min()

    def max(self):
        return self._a.max()

    def any(self):
        return bool(self._a.any())

    def all(self):
        return bool(self._a.all())

    def isin(self, v):
        return self._new(np.isin(self._a, np.asarray([raw(x) for x in v])))

    def isna(self):
        return self._new(np.isnat(self._a) if self._a.dtype.kind == "M" else np.isnan(self._a))

    isnull = isna

    def notna(self):
        return self._new(~np.asarray(self.isna()))

    notnull = notna

    def _date(self, f):
        if self._a.dtype.kind != "M":
            raise Missing("dates of a series of %s" % self._a.dtype)
        return self._new(np.array([f(stamp(x)) for x in self._a]))

    year = property(lambda s: s._date(lambda d: d.year))
    month = property(lambda s: s._date(lambda d: d.month))
    day = property(lambda s: s._date(lambda d: d.day))
    hour = property(lambda s: s._date(lambda d: d.hour))
    dayofyear = property(lambda s: s._date(lambda d: d.timetuple().tm_yday))
    day_of_year = dayofyear

    def to_julian_date(self):
        return self._date(lambda d: d.to_julian_date())


def _op(name):
    def f(self, o):
        g = getattr(self._a, name)
        r = g(raw(o))
        return NotImplemented if r is NotImplemented else self._new(r)
    return f


for _n in ("eq ne lt le gt ge add radd sub rsub mul rmul truediv rtruediv pow floordiv mod and or xor").split():
    setattr(NSeries, "__%s__" % _n, _op("__%s__" % _n))
for _n in "eq ne lt le gt ge add sub mul".split():
    setattr(NSeries, _n, getattr(NSeries, "__%s__" % _n))
NSeries.__invert__ = lambda s: s._new(~s._a)
NSeries.__neg__ = lambda s: s._new(-s._a)
NSeries.__hash__ = None


class _Pos(_Base):
    def __init__(self, s):
        self._s = s

    def __getitem__(self, k):
        s = self._s
        if isinstance(k, (int, np.integer)):
            return stamp(s._a[k]) if s._a.dtype.kind == "M" else s._a[k]
        if isinstance(k, slice):
            return NSeries(s._a[k], s._i[k], s.name)
        raise Missing("iloc[%r]" % (k,))


class DatetimeIndex(NSeries):
    def __init__(self, v):
        a = np.asarray(raw(v))
        if a.dtype.kind != "M":
            a = np.array([raw(stamp(x)) for x in v], dtype="datetime64[ns]")
        super().__init__(a)


def to_datetime(v, **k):
    return stamp(v) if not hasattr(v, "__len__") or isinstance(v, str) else DatetimeIndex(v)


class Units(_Base):
    """The frame of the hydro units: columns are (name, unit) pairs."""

    def __init__(self, cols, index=None):
        self._c = {k: np.asarray(v) for k, v in cols.items()}
        n = len(next(iter(self._c.values()))) if self._c else 0
        self._i = list(range(n)) if index is None else list(index)

    def __len__(self):
        return len(self._i)

    def __iter__(self):
        return iter(self._c)

    def __contains__(self, k):
        return any(k == c or k == c[0] for c in self._c)

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return NSeries(self._c[k], self._i, k)
        if isinstance(k, str):
            cols = {(c[1],): v for c, v in self._c.items() if c[0] == k}
            if not cols:
                raise KeyError(k)
            return Units(cols, self._i)
        raise Missing("Units[%r]" % (k,))

    def __array__(self, dtype=None, copy=None):
        return self.values

    @property
    def values(self):
        return np.column_stack(list(self._c.values()))

    def to_numpy(self):
        return self.values

    def squeeze(self):
        if len(self._c) == 1:
            return NSeries(next(iter(self._c.values())), self._i)
        return self

    @property
    def shape(self):
        return len(self._i), len(self._c)

    @property
    def index(self):
        return NSeries(np.asarray(self._i))

    @property
    def columns(self):
        return list(self._c)

    def reset_index(self, drop=False):
        c = {} if drop else {("index", ""): np.asarray(self._i)}
        c.update(self._c)
        return Units(c)

    def copy(self, deep=True):
        return Units({k: v.copy() for k, v in self._c.items()}, self._i)

    def iterrows(self):
        for n, i in enumerate(self._i):
            yield i, Row({k: v[n] for k, v in self._c.items()})

    iloc = property(lambda s: _RowAt(s))


class _RowAt(_Base):
    def __init__(self, u):
        self._u = u

    def __getitem__(self, n):
        return Row({k: v[n] for k, v in self._u._c.items()})


class Row(_Base):
    def __init__(self, v):
        self._v = v

    def __getitem__(self, k):
        if isinstance(k, tuple):
            return self._v[k]
        r = [(c[1:], v) for c, v in self._v.items() if c[0] == k]
        if not r:
            raise KeyError(k)
        return NSeries(np.array([v for _, v in r]))

    def get(self, k, default=None):
        return self[k] if any(k == c or k == c[0] for c in self._v) else default


class Table(_Base):
    """What read_csv returns."""

    def __init__(self, cols):
        self._c = cols

    def __getitem__(self, k):
        if isinstance(k, str):
            return self._c[k]
        m = np.asarray(k)
        if m.dtype == bool:
            return Table({c: v[m] for c, v in self._c.items()})
        raise Missing("Table[%r]" % (k,))

    loc = property(lambda s: s)

    @property
    def columns(self):
        return list(self._c)

    def __len__(self):
        return len(next(iter(self._c.values()), []))

    def __contains__(self, k):
        return k in self._c


def read_csv(path, parse_dates=None, date_format=None, **k):
    if k:
        raise Missing("read_csv(%s)" % ", ".join(k))
    with open(path) as f:
        lines = [x.rstrip("\n").split(",") for x in f if x.strip()]
    out = {}
    for n, name in enumerate(lines[0]):
        col = [x[n] for x in lines[1:]]
        if name in (parse_dates or []):
            out[name] = NSeries(np.array([np.datetime64(dt.datetime.strptime(x, date_format)) for x in col],
                                         dtype="datetime64[ns]"), name=name)
        else:
            a = [np.nan if x == "" else float(x) for x in col]
            if all(x and not set(x) & set(".eEna") for x in col):
                a = [int(x) for x in col]
            out[name] = NSeries(np.array(a), name=name)
    return Table(out)
