"""A small stand-in for the part of pandas the parameter sets use (pandas is not installed in the sandbox).

Cells are plain Python objects. Whatever is missing raises NotImplementedError (AttributeError), which the caller
treats as "this part cannot be exercised", never as a failure of the code under test.
"""
import math


class Index(list):
    """Labels or values: a list with the few methods of an index or an array."""
    def tolist(self):
        return list(self)

    to_list = tolist

    def __eq__(self, o):
        if isinstance(o, list):
            return list(self) == list(o)
        return Series([v == o for v in self])

    def __ne__(self, o):
        if isinstance(o, list):
            return list(self) != list(o)
        return Series([v != o for v in self])

    __hash__ = None

    @property
    def size(self):
        return len(self)

    @property
    def empty(self):
        return not self

    def get_loc(self, k):
        return self.index(k)

    def isin(self, vals):
        return Series([v in vals for v in self])

    def any(self):
        return any(bool(v) for v in self)

    def all(self):
        return all(bool(v) for v in self)

    def unique(self):
        return Series(self).unique()

    def __getattr__(self, n):
        raise AttributeError(n)

    def _no(self, o):
        raise NotImplementedError("arithmetic of an index or an array")

    # Not what a list does.
    __add__ = __radd__ = __iadd__ = __mul__ = __rmul__ = __imul__ = _no


class Series:
    def __init__(self, data=None, index=None, name=None, dtype=None):
        self.name = name
        if isinstance(data, dict):
            self._index, self._v = list(data), list(data.values())
        elif isinstance(data, Series):
            self._index, self._v = list(data._index), list(data._v)
        else:
            self._v = list(data if data is not None else [])
            self._index = list(index) if index is not None else list(range(len(self._v)))

    def to_frame(self, name=None):
        d = DataFrame()
        d._cols, d._index, d._rows = [name], list(self._index), [{name: v} for v in self._v]
        return d

    def _map(self, f):
        return Series([f(v) for v in self._v], self._index)

    def _two(self, o, f):
        if isinstance(o, Series):
            return Series([f(a, b) for a, b in zip(self._v, o._v)], self._index)
        return self._map(lambda v: f(v, o))

    def __eq__(self, o):
        return self._two(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._two(o, lambda a, b: a != b)

    def __and__(self, o):
        return self._two(o, lambda a, b: bool(a) and bool(b))

    def __or__(self, o):
        return self._two(o, lambda a, b: bool(a) or bool(b))

    def __invert__(self):
        return self._map(lambda v: not v)

    __hash__ = None

    def __getitem__(self, k):
        if isinstance(k, Series):
            keep = [i for i, b in enumerate(k._v) if b]
            return Series([self._v[i] for i in keep], [self._index[i] for i in keep])
        return self._v[self._index.index(k)]

    def __setitem__(self, k, v):
        if k in self._index:
            self._v[self._index.index(k)] = v
        else:
            self._index.append(k)
            self._v.append(v)

    def __getattr__(self, n):
        if not n.startswith("_") and "_index" in self.__dict__ and n in self._index:
            return self[n]
        raise AttributeError(n)

    def get(self, k, default=None):
        return self[k] if k in self._index else default

    def __contains__(self, k):
        return k in self._index

    def __iter__(self):
        return iter(self._v)

    def __len__(self):
        return len(self._v)

    @property
    def index(self):
        return Index(self._index)

    @property
    def values(self):
        return Index(self._v)

    @property
    def empty(self):
        return not self._v

    def items(self):
        return zip(self._index, self._v)

    def keys(self):
        return list(self._index)

    def __lt__(self, o):
        return self._two(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._two(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._two(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._two(o, lambda a, b: a >= b)

    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__

    @property
    def size(self):
        return len(self._v)

    @property
    def shape(self):
        return (len(self._v),)

    def sum(self):
        return sum(self._v)

    def max(self):
        return max(self._v)

    def min(self):
        return min(self._v)

    def nunique(self):
        return len(self.unique())

    @property
    def loc(self):
        return self

    at = loc

    @property
    def iloc(self):
        return Index(self._v)

    iat = iloc

    def to_numpy(self):
        return Index(self._v)

    def item(self):
        if len(self._v) != 1:
            raise ValueError("can only convert an array of size 1 to a Python scalar")
        return self._v[0]

    def tolist(self):
        return list(self._v)

    to_list = tolist

    def to_dict(self):
        return dict(zip(self._index, self._v))

    def any(self):
        return any(bool(v) for v in self._v)

    def all(self):
        return all(bool(v) for v in self._v)

    def isna(self):
        return self._map(lambda v: v is None or isinstance(v, float) and math.isnan(v))

    isnull = isna

    def notna(self):
        return self._map(lambda v: not (v is None or isinstance(v, float) and math.isnan(v)))

    notnull = notna

    def isin(self, vals):
        return self._map(lambda v: v in vals)

    def apply(self, f):
        return self._map(f)

    map = apply

    def unique(self):
        out = []
        for v in self._v:
            if v not in out:
                out.append(v)
        return Index(out)

    def dropna(self):
        return self[self.notna()]

    def copy(self, deep=True):
        return Series(self)


class _Loc:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        if isinstance(k, tuple):
            r, c = k
            if isinstance(r, Series):
                return self.d[r][c] if not isinstance(c, slice) else self.d[r]
            if isinstance(r, slice):
                return self.d[c]
            row = self.d._row(r)
            if isinstance(c, slice):
                return Series(dict(row))
            if isinstance(c, list):
                return Series({x: row[x] for x in c})
            return row[c]
        if isinstance(k, Series):
            return self.d[k]
        return Series(dict(self.d._row(k)), name=k)

    def __setitem__(self, k, v):
        r, c = k
        if isinstance(r, Series):
            for row, b in zip(self.d._rows, r._v):
                if b:
                    row[c] = v
            return
        if c not in self.d._cols:
            self.d._cols.append(c)
            for row in self.d._rows:
                row[c] = None
        if r not in self.d._index:
            self.d._index.append(r)
            self.d._rows.append({x: None for x in self.d._cols})
        self.d._row(r)[c] = v


class _ILoc:
    def __init__(self, d):
        self.d = d

    def __getitem__(self, k):
        if isinstance(k, int):
            return Series(dict(self.d._rows[k]), name=self.d._index[k])
        raise NotImplementedError("iloc")


class DataFrame:
    def __init__(self, data=None, columns=None, index=None, dtype=None):
        self._cols, self._index, self._rows = list(columns or []), [], []
        if isinstance(data, list):
            for r in data:
                r = r.to_dict() if isinstance(r, Series) else dict(r)
                for k in r:
                    if k not in self._cols:
                        self._cols.append(k)
                self._rows.append(r)
            for r in self._rows:
                for k in self._cols:
                    r.setdefault(k, None)
            self._index = list(range(len(self._rows)))
        elif isinstance(data, dict):
            self._cols = list(columns or data)
            n = max((len(v) for v in data.values()), default=0)
            self._rows = [{c: list(data[c])[i] for c in self._cols} for i in range(n)]
            self._index = list(range(n))
        elif isinstance(data, DataFrame):
            self._cols, self._index, self._rows = list(data._cols), list(data._index), [dict(r) for r in data._rows]
        elif data is not None:
            raise NotImplementedError("DataFrame")

    def _row(self, k):
        return self._rows[self._index.index(k)]

    @property
    def T(self):
        d = DataFrame()
        d._cols, d._index = list(self._index), list(self._cols)
        d._rows = [{k: r[c] for k, r in zip(self._index, self._rows)} for c in self._cols]
        return d

    @property
    def loc(self):
        return _Loc(self)

    at = loc

    @property
    def iloc(self):
        return _ILoc(self)

    @property
    def columns(self):
        return Index(self._cols)

    @property
    def index(self):
        return Index(self._index)

    @property
    def empty(self):
        return not self._rows

    @property
    def shape(self):
        return len(self._rows), len(self._cols)

    def __len__(self):
        return len(self._rows)

    def __contains__(self, k):
        return k in self._cols

    def __iter__(self):
        return iter(self._cols)

    def __getitem__(self, k):
        if isinstance(k, Series):
            d = DataFrame(columns=self._cols)
            for i, r, b in zip(self._index, self._rows, k._v):
                if b:
                    d._index.append(i)
                    d._rows.append(dict(r))
            return d
        if isinstance(k, list):
            d = DataFrame(columns=k)
            d._index, d._rows = list(self._index), [{c: r[c] for c in k} for r in self._rows]
            return d
        if k not in self._cols:
            raise KeyError(k)
        return Series([r[k] for r in self._rows], self._index, name=k)

    def __getattr__(self, n):
        if not n.startswith("_") and "_cols" in self.__dict__ and n in self._cols:
            return self[n]
        raise AttributeError(n)

    def __setitem__(self, k, v):
        if k not in self._cols:
            self._cols.append(k)
        vals = list(v) if isinstance(v, (list, Series)) else [v] * len(self._rows)
        for r, x in zip(self._rows, vals):
            r[k] = x

    def iterrows(self):
        for i, r in zip(list(self._index), list(self._rows)):
            yield i, Series(dict(r), name=i)

    def itertuples(self, index=True, name="Pandas"):
        from collections import namedtuple
        cols = (["Index"] if index else []) + self._cols
        t = namedtuple(name or "Pandas", cols)
        for i, r in zip(self._index, self._rows):
            yield t(*(([i] if index else []) + [r[c] for c in self._cols]))

    def to_dict(self, orient="dict"):
        if orient == "records":
            return [dict(r) for r in self._rows]
        if orient == "list":
            return {c: [r[c] for r in self._rows] for c in self._cols}
        if orient == "index":
            return {i: dict(r) for i, r in zip(self._index, self._rows)}
        if orient == "dict":
            return {c: {i: r[c] for i, r in zip(self._index, self._rows)} for c in self._cols}
        raise NotImplementedError("to_dict")

    def explode(self, column, ignore_index=False):
        d = DataFrame(columns=self._cols)
        for i, r in zip(self._index, self._rows):
            v = r[column]
            for x in (v if isinstance(v, (list, tuple)) and v else [v if not isinstance(v, (list, tuple)) else math.nan]):
                d._index.append(i)
                d._rows.append({**r, column: x})
        if ignore_index:
            d._index = list(range(len(d._rows)))
        return d

    def reset_index(self, drop=False, inplace=False):
        d = self if inplace else DataFrame(self)
        d._index = list(range(len(d._rows)))
        return None if inplace else d

    def copy(self, deep=True):
        return DataFrame(self)

    def items(self):
        return [(c, self[c]) for c in self._cols]

    def keys(self):
        return Index(self._cols)

    @property
    def values(self):
        return Index([r[c] for c in self._cols] for r in self._rows)

    def head(self, n=5):
        d = DataFrame(columns=self._cols)
        d._index, d._rows = self._index[:n], [dict(r) for r in self._rows[:n]]
        return d

    def isin(self, vals):
        raise NotImplementedError("isin")

    def groupby(self, by, sort=True):
        keys = self[by].unique()
        if sort:
            keys = sorted(keys)
        return [(k, self[self[by] == k]) for k in keys]


def concat(objs, ignore_index=False, axis=0, **k):
    if axis not in (0, "index"):
        raise NotImplementedError("concat")
    d = DataFrame()
    for o in objs:
        if isinstance(o, Series):
            o = o.to_frame().T
        for c in o._cols:
            if c not in d._cols:
                d._cols.append(c)
        for i, r in zip(o._index, o._rows):
            d._index.append(i)
            d._rows.append(dict(r))
    for r in d._rows:
        for c in d._cols:
            r.setdefault(c, math.nan)
    if ignore_index:
        d._index = list(range(len(d._rows)))
    return d


def isna(v):
    if hasattr(type(v), "isna"):
        return v.isna()
    if hasattr(v, "__len__") and not isinstance(v, str):
        raise NotImplementedError("isna of " + type(v).__name__)
    return v is None or (isinstance(v, float) and math.isnan(v))


isnull = isna


def notna(v):
    if hasattr(type(v), "notna"):
        return v.notna()
    return not isna(v)


notnull = notna


def __getattr__(n):
    raise AttributeError("module 'pandas' has no attribute %r in the stand-in" % n)
