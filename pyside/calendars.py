"""Stand-ins for the parts of pandas the periods, the evaluation and the calibration use: dates, date axes, dated series.

What is missing raises Gone, and is remembered (LACKS) in case the code under test catches it: the case is discarded.
"""
import datetime as dt
import types

import numpy as np

import frames

LACKS = []


class Gone(frames.Missing):
    def __init__(self, what):
        LACKS.append(what)
        super().__init__(what)


class _Base:
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Gone("%s.%s" % (type(self).__name__, n))


class Offset(_Base):
    def __init__(self, years=0, months=0, days=0, **k):
        if k:
            raise Gone("DateOffset(%s)" % k)
        self.y, self.m, self.d = years, months, days

    def on(self, t, sign=1):
        n = t.year * 12 + t.month - 1 + sign * (12 * self.y + self.m)
        y, m = divmod(n, 12)
        for day in (t.day, 30, 29, 28):
            try:
                r = t.replace(year=y, month=m + 1, day=min(day, t.day))
                break
            except ValueError:
                if not 1 <= y <= 9999:
                    raise
        return r + dt.timedelta(days=sign * self.d)


class Stamp(dt.datetime):
    """A point in time."""

    def __new__(cls, v=None, *a, **k):
        if isinstance(v, bytes) or a or k:
            return super().__new__(cls, v, *a, **k)
        if isinstance(v, np.datetime64):
            v = v.astype("datetime64[us]").astype(dt.datetime)
        if isinstance(v, str):
            v = dt.datetime.fromisoformat(v)
        if isinstance(v, dt.datetime):
            return super().__new__(cls, v.year, v.month, v.day, v.hour, v.minute, v.second, v.microsecond)
        if isinstance(v, dt.date):
            return super().__new__(cls, v.year, v.month, v.day)
        if isinstance(v, (int, float)) or v is None:
            raise Gone("Timestamp(%r)" % (v,))
        raise TypeError("Cannot convert input [%r] of type %s to Timestamp" % (v, type(v)))

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Gone("Timestamp.%s" % n)

    def __add__(self, o):
        return o.on(self) if isinstance(o, Offset) else super().__add__(o)

    def __sub__(self, o):
        return o.on(self, -1) if isinstance(o, Offset) else super().__sub__(o)

    def normalize(self):
        return Stamp(self.date())

    def to_pydatetime(self):
        return dt.datetime(self.year, self.month, self.day, self.hour, self.minute, self.second, self.microsecond)

    def to_datetime64(self):
        return d64(self)

    to_numpy = to_datetime64
    dayofyear = day_of_year = property(lambda s: s.timetuple().tm_yday)


def d64(v):
    if isinstance(v, np.datetime64):
        return v.astype("datetime64[ns]")
    if isinstance(v, dt.datetime):
        return np.datetime64(v.replace(tzinfo=None), "ns")
    return d64(Stamp(v))


def axis(v):
    """An array of dates from what can hold dates."""
    if isinstance(v, Dates):
        return v._a
    if isinstance(v, Dated):
        return axis(v.values)
    a = np.asarray(v)
    if a.dtype.kind == "M":
        return a.astype("datetime64[ns]")
    return np.array([d64(x) for x in v], dtype="datetime64[ns]")


class Dates(_Base):
    """A date axis."""

    def __init__(self, v=(), **k):
        if set(k) - {"name"}:
            raise Gone("DatetimeIndex(%s)" % k)
        self._a = axis(v)

    def __array__(self, dtype=None, copy=None):
        return self._a if dtype is None else self._a.astype(dtype)

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        return iter([Stamp(x) for x in self._a])

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            return Stamp(self._a[k])
        return Dates(self._a[k if isinstance(k, slice) else np.asarray(k)])

    def __contains__(self, v):
        return bool((self._a == d64(v)).any())

    values = property(lambda s: s._a)
    array = asi8 = values
    size = property(lambda s: len(s._a))
    shape = property(lambda s: s._a.shape)
    empty = property(lambda s: len(s._a) == 0)
    is_unique = property(lambda s: len(set(s._a.tolist())) == len(s._a))
    has_duplicates = property(lambda s: not s.is_unique)
    is_monotonic_increasing = property(lambda s: bool((s._a[1:] >= s._a[:-1]).all()))
    year = property(lambda s: np.array([x.year for x in s]))
    month = property(lambda s: np.array([x.month for x in s]))

    def to_numpy(self, *a, **k):
        return self._a.copy()

    def to_series(self):
        return Dated(self._a, self)

    def to_pydatetime(self):
        return np.array([x.to_pydatetime() for x in self], dtype=object)

    def tolist(self):
        return list(self)

    to_list = tolist

    def copy(self):
        return Dates(self._a.copy())

    def normalize(self):
        return Dates(self._a.astype("datetime64[D]"))

    def min(self):
        return Stamp(self._a.min())

    def max(self):
        return Stamp(self._a.max())

    def isin(self, v):
        return np.isin(self._a, axis(v))

    def duplicated(self, keep="first"):
        out, seen = np.zeros(len(self._a), bool), set()
        order = range(len(self._a)) if keep == "first" else range(len(self._a) - 1, -1, -1)
        if keep not in ("first", "last"):
            raise Gone("duplicated(%r)" % (keep,))
        for i in order:
            out[i] = self._a[i] in seen
            seen.add(self._a[i])
        return out

    def unique(self):
        return self[~self.duplicated()]

    drop_duplicates = unique

    def sort_values(self):
        return Dates(np.sort(self._a))

    def equals(self, o):
        return len(o) == len(self) and bool((self._a == axis(o)).all())

    def difference(self, o):
        return Dates(np.setdiff1d(self._a, axis(o)))

    def intersection(self, o):
        return Dates(np.intersect1d(self._a, axis(o)))

    def get_indexer(self, o):
        where = {x: i for i, x in enumerate(self._a)}
        return np.array([where.get(x, -1) for x in axis(o)])

    def searchsorted(self, v, side="left"):
        return np.searchsorted(self._a, d64(v), side=side)

    def get_loc(self, v):
        return [x for x in self._a].index(d64(v))


def _cmp(name):
    def f(self, o):
        if isinstance(o, (str, dt.date, np.datetime64)):
            o = d64(o)
        elif isinstance(o, (Dates, Dated, np.ndarray, list)):
            o = axis(o)
        else:
            return NotImplemented
        return getattr(self._a, name)(o)
    return f


for _n in "eq ne lt le gt ge".split():
    setattr(Dates, "__%s__" % _n, _cmp("__%s__" % _n))
Dates.__hash__ = None


class _Loc(_Base):
    def __init__(self, s):
        self._s = s

    def __getitem__(self, k):
        s = self._s
        if isinstance(k, slice) and k.step is None:
            m = np.ones(len(s), bool)
            if k.start is not None:
                m &= s._i >= k.start
            if k.stop is not None:
                m &= s._i <= k.stop
            return s[m]
        if isinstance(k, Dates):
            r = s._i.get_indexer(k)
            if (r < 0).any():
                raise KeyError("not in index")
            return Dated(s.values[r], k)
        if isinstance(k, (str, dt.datetime)):
            return s.values[s._i.get_loc(k)]
        return s[k]


class Dated(_Base):
    """A series, with a date axis or none."""

    def __init__(self, v=(), index=None, name=None, dtype=None):
        self.values = v._a if isinstance(v, Dates) else v.values if isinstance(v, Dated) else np.asarray(v, dtype=dtype)
        self._i = None if index is None else index if isinstance(index, Dates) else Dates(index)
        if self._i is not None and len(self._i) != len(self.values):
            raise ValueError("Length of values (%d) does not match length of index (%d)" % (len(self.values), len(self._i)))
        self.name = name

    def __array__(self, dtype=None, copy=None):
        return self.values if dtype is None else self.values.astype(dtype)

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter([Stamp(x) for x in self.values] if self.values.dtype.kind == "M" else self.values)

    def _dates(self):
        if self._i is None:
            raise Gone("index of a plain series")
        return self._i

    index = property(_dates)
    array = property(lambda s: s.values)
    shape = property(lambda s: s.values.shape)
    size = property(lambda s: len(s.values))
    empty = property(lambda s: len(s.values) == 0)
    loc = property(lambda s: _Loc(s))

    def to_numpy(self, *a, **k):
        return self.values.copy()

    def tolist(self):
        return list(self)

    to_list = tolist

    def copy(self):
        return Dated(self.values.copy(), self._i)

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer, str, dt.datetime)):
            if self._i is None and isinstance(k, (int, np.integer)) and k >= 0:
                return list(self)[k]
            raise Gone("Series[%r]" % (k,))
        if isinstance(k, Dates):
            return self.loc[k]
        m = k if isinstance(k, slice) else np.asarray(k)
        if not isinstance(k, slice) and m.dtype != bool:
            raise Gone("Series[%s]" % m.dtype)
        return Dated(self.values[m], None if self._i is None else self._i[m])

    def reindex(self, index):
        index = index if isinstance(index, Dates) else Dates(index)
        if not self._dates().is_unique:
            raise ValueError("cannot reindex on an axis with duplicate labels")
        r = self._i.get_indexer(index)
        v = self.values if (r >= 0).all() else self.values.astype(float)
        out = v[np.maximum(r, 0)] if len(v) else np.zeros(len(r))
        if (r < 0).any():
            out[r < 0] = np.nan
        return Dated(out, index)

    def sort_index(self):
        o = np.argsort(self._dates()._a, kind="stable")
        return Dated(self.values[o], self._i[o])

    def isna(self):
        return Dated(np.isnan(self.values), self._i)

    isnull = isna

    def notna(self):
        return Dated(~np.isnan(self.values), self._i)

    notnull = notna

    def dropna(self):
        return self[~np.isnan(self.values)]

    def any(self):
        return bool(self.values.any())

    def all(self):
        return bool(self.values.all())

    def sum(self):
        return self.values.sum()

    def min(self):
        return Stamp(self.values.min()) if self.values.dtype.kind == "M" else self.values.min()

    def max(self):
        return Stamp(self.values.max()) if self.values.dtype.kind == "M" else self.values.max()


class Frame(_Base):
    """A table: rows by name, or columns by name."""

    def __init__(self, v=None, index=None, columns=None):
        v = {} if v is None else v
        if isinstance(v, list) and all(isinstance(x, dict) for x in v) and index is not None:
            self.rows = dict(zip(index, v))
        elif isinstance(v, list) and columns is not None and index is not None:
            self.rows = {n: dict(zip(columns, x)) for n, x in zip(index, v)}
        elif isinstance(v, dict) and index is None:
            self.cols = v
        else:
            raise Gone("DataFrame(%s)" % type(v).__name__)

    @classmethod
    def from_dict(cls, rows, orient="columns", columns=None):
        if orient != "index":
            return cls(rows)
        f = cls()
        if rows and not isinstance(next(iter(rows.values())), dict):
            rows = {n: dict(zip(columns, x)) for n, x in rows.items()}
        f.rows = {n: {k: x[k] for k in (columns or x)} for n, x in rows.items()}
        return f


def date_range(start=None, end=None, periods=None, freq="D", **k):
    if k or freq != "D" or start is None:
        raise Gone("date_range(%s, %s)" % (freq, k))
    a = Stamp(start)
    n = periods if end is None else (Stamp(end) - a).days + 1
    return Dates([a + dt.timedelta(days=i) for i in range(n)])


def delta(value=None, unit="D", **k):
    if k:
        return dt.timedelta(**k)
    if isinstance(value, dt.timedelta):
        return value
    if isinstance(value, (int, np.integer)) and str(unit).lower() in ("d", "day", "days"):
        return dt.timedelta(days=int(value))
    raise Gone("Timedelta(%r, %r)" % (value, unit))


def when(v, **k):
    if k:
        raise Gone("to_datetime(%s)" % k)
    return Stamp(v) if isinstance(v, (str, dt.date, np.datetime64)) else Dates(v)


class Pandas(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Gone("pandas.%s" % n)


def pandas():
    m = Pandas("pandas")
    m.__path__ = []
    m.Timestamp, m.DatetimeIndex, m.Series, m.DataFrame = Stamp, Dates, Dated, Frame
    m.date_range, m.Timedelta, m.to_timedelta, m.to_datetime = date_range, delta, delta, when
    m.DateOffset = Offset
    m.isna = m.isnull = lambda v: np.isnan(np.asarray(v, dtype=float)) if v is not None else True
    m.notna = m.notnull = lambda v: ~m.isna(v) if v is not None else False
    offsets = types.SimpleNamespace(DateOffset=Offset)
    m.tseries = types.SimpleNamespace(offsets=offsets)
    m.offsets = offsets
    return m
