"""Array-backed stand-ins for the tables of pandas with one or two header rows (hydro units, changes, connectivity).

What is missing raises Missing: the case is discarded, never a failure.
"""
import csv
import re

import numpy as np

from frames import Missing


class PandasKeyError(KeyError):
    """What pandas raises too: the fault of the caller."""
    as_pandas = True


class PandasValueError(ValueError):
    as_pandas = True


class PandasIndexError(IndexError):
    as_pandas = True


def _in(k, n):
    if not -n <= k < n:
        raise PandasIndexError("index %d is out of bounds" % k)
    return k


def _arr(v):
    """A column, with the type pandas would infer."""
    if isinstance(v, Ser):
        return v._a.copy()
    if isinstance(v, np.ndarray):
        if v.ndim != 1:
            raise Missing("column of %d dimensions" % v.ndim)
        if v.dtype.kind in "US":
            return v.astype(object)
        return v.copy()
    v = list(v)
    if v and all(isinstance(x, (bool, np.bool_)) for x in v):
        return np.array(v, bool)
    if v and all(isinstance(x, (int, np.integer)) and not isinstance(x, bool) for x in v):
        return np.array(v, np.int64)
    if v and all(isinstance(x, (int, float, np.integer, np.floating)) and not isinstance(x, bool) for x in v):
        return np.array(v, float)
    a = np.empty(len(v), object)
    for i, x in enumerate(v):
        a[i] = x
    return a


class Cols:
    """Labels of the columns (or of a row): strings, or tuples when there are two levels."""

    def __init__(self, labels, names=None):
        self._l = list(labels)
        self.names = names
        self.nlevels = 2 if self._l and all(isinstance(x, tuple) for x in self._l) else 1

    @classmethod
    def from_tuples(cls, tuples, names=None):
        return cls([tuple(t) for t in tuples], names)

    @classmethod
    def from_arrays(cls, arrays, names=None):
        return cls(list(zip(*[list(a) for a in arrays])), names)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Missing("columns.%s" % n)

    def __iter__(self):
        return iter(self._l)

    def __len__(self):
        return len(self._l)

    def __eq__(self, o):
        return np.array([a == b for a, b in zip(self._l, list(o))], bool)

    __hash__ = None

    def find(self, k):
        """Positions of a label; the labels left for them (None: the very label)."""
        if k in self._l:
            return [i for i, x in enumerate(self._l) if x == k], None
        if self.nlevels == 2:
            top = k[0] if isinstance(k, tuple) and len(k) == 1 else k
            p = [i for i, x in enumerate(self._l) if x[0] == top]
            if p:
                return p, [self._l[i][1] for i in p]
        raise PandasKeyError(k)

    def __contains__(self, k):
        try:
            self.find(k)
            return True
        except KeyError:
            return False

    def get_loc(self, k):
        p, rest = self.find(k)
        if rest is None and len(p) == 1:
            return p[0]
        if p == list(range(p[0], p[-1] + 1)):
            return slice(p[0], p[-1] + 1)
        m = np.zeros(len(self), bool)
        m[p] = True
        return m

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            return self._l[k]
        if isinstance(k, slice):
            return Cols(self._l[k])
        k = np.asarray(k)
        return Cols([self._l[i] for i in (np.flatnonzero(k) if k.dtype == bool else k)])

    def tolist(self):
        return list(self._l)

    to_list = tolist

    @property
    def values(self):
        a = np.empty(len(self._l), object)
        for i, x in enumerate(self._l):
            a[i] = x
        return a

    to_numpy = lambda s: s.values  # noqa: E731

    def astype(self, t):
        return Ser(np.array([t(x) for x in self._l]))

    def get_level_values(self, i):
        return Cols([x[i] for x in self._l]) if self.nlevels == 2 else self


class Ser:
    """A column, or a row (whose labels are those of the columns)."""

    def __init__(self, a, index=None, name=None):
        self._a = a if isinstance(a, np.ndarray) else _arr(a)
        self._i = list(range(len(self._a))) if index is None else list(index)
        self.name = name

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Missing("Series.%s" % n)

    def __array__(self, dtype=None, copy=None):
        return self._a if dtype is None else self._a.astype(dtype)

    def __len__(self):
        return len(self._a)

    def __iter__(self):
        return iter(self._a.tolist() if self._a.dtype != object else self._a)

    def _new(self, a):
        return Ser(np.asarray(a), self._i, self.name)

    values = property(lambda s: s._a)
    array = values
    dtype = property(lambda s: s._a.dtype)
    shape = property(lambda s: s._a.shape)
    size = property(lambda s: s._a.size)
    ndim = property(lambda s: 1)
    empty = property(lambda s: s._a.size == 0)
    index = property(lambda s: Cols(s._i))
    iloc = property(lambda s: _SerAt(s))
    iat = iloc
    loc = property(lambda s: s)
    at = loc

    def __getitem__(self, k):
        if isinstance(k, (Ser, np.ndarray)) and np.asarray(k).dtype == bool:
            m = np.asarray(k)
            return Ser(self._a[m], [i for i, b in zip(self._i, m) if b], self.name)
        if isinstance(k, (slice, list, np.ndarray)):
            raise Missing("Series[%r]" % (k,))
        p, rest = Cols(self._i).find(k)
        if rest is None:
            if len(p) > 1:
                raise Missing("duplicated label")
            return self._a[p[0]]
        return Ser(self._a[p], rest)

    def get(self, k, default=None):
        return self[k] if k in Cols(self._i) else default

    def __contains__(self, k):
        return k in Cols(self._i)

    def items(self):
        return zip(self._i, self)

    def to_numpy(self, dtype=None, copy=False):
        return self._a.astype(dtype) if dtype is not None else self._a.copy()

    def tolist(self):
        return self._a.tolist()

    to_list = tolist

    def to_dict(self):
        return dict(zip(self._i, self._a.tolist()))

    def copy(self, deep=True):
        return self._new(self._a.copy())

    def astype(self, t):
        return self._new(self._a.astype(t))

    def isnull(self):
        return self._new(np.array([x is None or x != x for x in self._a], bool))

    isna = isnull

    def notnull(self):
        return self._new(~self.isnull()._a)

    notna = notnull

    def fillna(self, v):
        return self._new(_arr([v if x is None or x != x else x for x in self._a]))

    def item(self):
        return self._a.item()

    def _real(self):
        a = self._a.astype(float)
        return a[~np.isnan(a)]

    def min(self):
        r = self._real().min()
        return int(r) if self._a.dtype.kind == "i" else r

    def max(self):
        r = self._real().max()
        return int(r) if self._a.dtype.kind == "i" else r

    def sum(self):
        return self._real().sum()

    def mean(self):
        return self._real().mean()

    def any(self):
        return bool(self._a.any())

    def all(self):
        return bool(self._a.all())

    def unique(self):
        return np.array(list(dict.fromkeys(self._a.tolist())))

    def isin(self, v):
        return self._new(np.array([x in list(v) for x in self._a], bool))

    def reset_index(self, drop=False):
        return Ser(self._a)

    def __bool__(self):
        raise PandasValueError("The truth value of a Series is ambiguous.")


def _op(name):
    def f(self, o):
        g = getattr(self._a, name)
        r = g(o._a if isinstance(o, Ser) else o)
        return NotImplemented if r is NotImplemented else self._new(r)
    return f


for _n in ("eq ne lt le gt ge add radd sub rsub mul rmul truediv rtruediv pow floordiv mod and or xor").split():
    setattr(Ser, "__%s__" % _n, _op("__%s__" % _n))
Ser.__hash__ = None
Ser.__invert__ = lambda s: s._new(~s._a)
Ser.__neg__ = lambda s: s._new(-s._a)
Ser.__float__ = lambda s: float(s._a.item())
Ser.__int__ = lambda s: int(s._a.item())


class _SerAt:
    def __init__(self, s):
        self._s = s

    def __getitem__(self, k):
        s = self._s
        if isinstance(k, (int, np.integer)):
            return s._a[_in(k, len(s._a))]
        if isinstance(k, slice):
            return Ser(s._a[k], s._i[k], s.name)
        raise Missing("iloc[%r]" % (k,))


class Frame:
    def __init__(self, data=None, columns=None, index=None):
        self._names = None
        if isinstance(data, Frame):
            self._l, self._c, self._i = list(data._l), [c.copy() for c in data._c], list(data._i)
            return
        if data is None:
            self._l = list(columns) if columns is not None else []
            self._i = [] if index is None else list(index)
            self._c = [np.full(len(self._i), np.nan, object) for _ in self._l]
            return
        if isinstance(data, dict):
            keys = list(data)
            if columns is not None:
                raise Missing("DataFrame(dict, columns)")
            n = max([len(v) for v in data.values() if hasattr(v, "__len__") and not isinstance(v, str)] or [1])
            self._l = keys
            self._c = [_arr(v) if hasattr(v, "__len__") and not isinstance(v, str) else _arr([v] * n)
                       for v in data.values()]
        else:
            a = np.asarray(data) if not isinstance(data, np.ndarray) else data
            if a.ndim == 1:
                a = a[:, None]
            self._l = list(columns) if columns is not None else list(range(a.shape[1]))
            if a.shape[1] != len(self._l):
                raise PandasValueError("Shape of passed values is %s" % (a.shape,))
            self._c = [_arr(a[:, i]) for i in range(a.shape[1])]
        n = len(self._c[0]) if self._c else 0
        if any(len(c) != n for c in self._c):
            raise PandasValueError("All arrays must be of the same length")
        self._i = list(range(n)) if index is None else list(index)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n.startswith("_"):
            raise AttributeError(n)
        raise Missing("DataFrame.%s" % n)

    @classmethod
    def _of(cls, labels, cols, index):
        f = cls()
        f._l, f._c, f._i = list(labels), list(cols), list(index)
        return f

    @property
    def columns(self):
        return Cols(self._l, self._names)

    @columns.setter
    def columns(self, v):
        v = list(v)
        if len(v) != len(self._l):
            raise PandasValueError("Length mismatch")
        self._l = v

    index = property(lambda s: _Index(s._i))
    shape = property(lambda s: (len(s._i), len(s._l)))
    empty = property(lambda s: not s._i or not s._l)
    loc = property(lambda s: _Loc(s))
    at = loc
    iloc = property(lambda s: _ILoc(s))
    iat = iloc

    @property
    def values(self):
        if not self._c:
            return np.empty((len(self._i), 0))
        if any(c.dtype == object for c in self._c):
            a = np.empty((len(self._i), len(self._c)), object)
            for i, c in enumerate(self._c):
                a[:, i] = c
            return a
        return np.column_stack(self._c)

    def __array__(self, dtype=None, copy=None):
        return self.values if dtype is None else self.values.astype(dtype)

    def to_numpy(self, dtype=None):
        return self.values if dtype is None else self.values.astype(dtype)

    def __len__(self):
        return len(self._i)

    def __iter__(self):
        return iter(self._l)

    def __contains__(self, k):
        return k in self.columns

    def copy(self, deep=True):
        return Frame._of(self._l, [c.copy() for c in self._c], self._i)

    def __getitem__(self, k):
        if isinstance(k, (Ser, np.ndarray)) and np.asarray(k).dtype == bool:
            m = np.asarray(k)
            return Frame._of(self._l, [c[m] for c in self._c], [i for i, b in zip(self._i, m) if b])
        if isinstance(k, list):
            p = [j for x in k for j in self.columns.find(x)[0]]
            return Frame._of([self._l[j] for j in p], [self._c[j] for j in p], self._i)
        p, rest = self.columns.find(k)
        if rest is None and len(p) == 1:
            return Ser(self._c[p[0]].copy(), self._i, k)
        labels = [self._l[j] for j in p] if rest is None else rest
        if rest is not None and labels == [""]:
            return Ser(self._c[p[0]].copy(), self._i, k)
        return Frame._of(labels, [self._c[j] for j in p], self._i)

    def get(self, k, default=None):
        return self[k] if k in self.columns else default

    def _full(self, v):
        if isinstance(v, (Ser, np.ndarray, list, tuple, range)):
            a = _arr(v)
            if self._l and self._i and len(a) != len(self._i):
                raise PandasValueError("Length of values (%d) does not match length of index (%d)" % (len(a), len(self._i)))
            return a
        return _arr([v] * len(self._i))

    def __setitem__(self, k, v):
        if isinstance(k, (list, slice, np.ndarray, Ser)):
            raise Missing("DataFrame[%r] = ..." % (k,))
        if isinstance(v, Frame):
            if len(v._l) != 1:
                raise Missing("frame set as a column")
            v = v._c[0]
        v = self._full(v)
        if not self._i:
            self._i = list(range(len(v)))
            self._c = [np.full(len(v), np.nan, object) for _ in self._l]
        if k in self.columns:
            for j in self.columns.find(k)[0]:
                self._c[j] = v.copy()
            return
        if self.columns.nlevels == 2 and not isinstance(k, tuple):
            k = (k, "")
        self._l.append(k)
        self._c.append(v)

    def insert(self, loc, column, value):
        if column in self._l:
            raise PandasValueError("cannot insert %s, already exists" % (column,))
        self._c.insert(loc, self._full(value))
        self._l.insert(loc, column)

    def drop(self, labels=None, axis=0, inplace=False, columns=None):
        if columns is not None:
            labels, axis = columns, 1
        if axis not in (0, 1, "index", "columns"):
            raise PandasValueError("No axis named %s" % (axis,))
        if axis not in (1, "columns"):
            raise Missing("drop of rows")
        labels = [labels] if isinstance(labels, (str, tuple)) else list(labels)
        p = {j for x in labels for j in self.columns.find(x)[0]}
        keep = [j for j in range(len(self._l)) if j not in p]
        f = Frame._of([self._l[j] for j in keep], [self._c[j] for j in keep], self._i)
        if not inplace:
            return f
        self._l, self._c = f._l, f._c

    def rename(self, columns=None, inplace=False):
        f = self if inplace else self.copy()
        f._l = [columns.get(x, x) for x in f._l]
        return None if inplace else f

    def sort_values(self, by, ascending=True, inplace=False):
        by = by[0] if isinstance(by, list) and len(by) == 1 else by
        a = self[by]
        if not isinstance(a, Ser):
            raise Missing("sort by several columns")
        a = a._a.astype(float)
        order = np.argsort(a if ascending else -a, kind="stable")
        f = Frame._of(self._l, [c[order] for c in self._c], [self._i[j] for j in order])
        if not inplace:
            return f
        self._c, self._i = f._c, f._i

    def reset_index(self, drop=False):
        if not drop:
            raise Missing("reset_index")
        return Frame._of(self._l, self._c, range(len(self._i)))

    def _row(self, n):
        vals = [c[n] for c in self._c]
        kinds = {c.dtype.kind for c in self._c}
        if kinds <= {"i"}:
            a = np.array(vals, np.int64)
        elif kinds <= {"i", "f"}:
            a = np.array(vals, float)
        else:
            a = np.empty(len(vals), object)
            for i, x in enumerate(vals):
                a[i] = x
        return Ser(a, self._l, self._i[n])

    def iterrows(self):
        for n in range(len(self._i)):
            yield self._i[n], self._row(n)

    def items(self):
        for k, c in zip(self._l, self._c):
            yield k, Ser(c, self._i, k)

    def astype(self, t):
        return Frame._of(self._l, [c.astype(t) for c in self._c], self._i)

    def isnull(self):
        return Frame._of(self._l, [Ser(c).isnull()._a for c in self._c], self._i)

    isna = isnull

    def notnull(self):
        return Frame._of(self._l, [~Ser(c).isnull()._a for c in self._c], self._i)

    notna = notnull

    def squeeze(self):
        return Ser(self._c[0], self._i, self._l[0]) if len(self._l) == 1 else self

    def to_csv(self, path, header=True, index=True, **k):
        if index or not header or k:
            raise Missing("to_csv options")
        with open(path, "w", newline="") as f:
            w = csv.writer(f, lineterminator="\n")
            if self.columns.nlevels == 2:
                w.writerow([x[0] for x in self._l])
                w.writerow([x[1] for x in self._l])
            else:
                w.writerow(self._l)
            for n in range(len(self._i)):
                w.writerow(["" if c[n] is None or c[n] != c[n] else
                            repr(float(c[n])) if isinstance(c[n], (float, np.floating)) else str(c[n])
                            for c in self._c])


def _arith(name):
    def f(self, o):
        if isinstance(o, (Frame, Ser)):
            raise Missing("operations between tables")
        return Frame._of(self._l, [getattr(Ser(c), name)(o)._a for c in self._c], self._i)
    return f


for _n in "add radd sub mul rmul truediv eq ne lt le gt ge".split():
    setattr(Frame, "__%s__" % _n, _arith("__%s__" % _n))
Frame.__hash__ = None


class _Index(Ser):
    def __init__(self, i):
        super().__init__(_arr(i))

    def __getitem__(self, k):
        if isinstance(k, (int, np.integer)):
            return self._a[k]
        k = np.asarray(k)
        return _Index(self._a[np.flatnonzero(k) if k.dtype == bool else k])


class _Loc:
    def __init__(self, f):
        self._f = f

    def _rows(self, k):
        f = self._f
        if isinstance(k, slice):
            if k != slice(None):
                raise Missing("loc of a slice")
            return list(range(len(f._i))), False
        if isinstance(k, (Ser, np.ndarray)) and np.asarray(k).dtype == bool:
            return list(np.flatnonzero(np.asarray(k))), False
        if isinstance(k, (list, np.ndarray, Ser)):
            return [f._i.index(x) for x in k], False
        if k not in f._i:
            raise PandasKeyError(k)
        return [f._i.index(k)], True

    def __getitem__(self, k):
        f = self._f
        if not (isinstance(k, tuple) and len(k) == 2):
            p, one = self._rows(k)
            return f._row(p[0]) if one else Frame._of(f._l, [c[p] for c in f._c], [f._i[j] for j in p])
        p, one = self._rows(k[0])
        v = f[k[1]]
        if one:
            if isinstance(v, Ser):
                return v._a[p[0]]
            return v._row(p[0])
        if isinstance(v, Ser):
            return Ser(v._a[p], [f._i[j] for j in p], k[1])
        return Frame._of(v._l, [c[p] for c in v._c], [f._i[j] for j in p])

    def __setitem__(self, k, v):
        f = self._f
        if not (isinstance(k, tuple) and len(k) == 2):
            raise Missing("loc[row] = ...")
        p, one = self._rows(k[0])
        if k[1] not in f.columns:
            f[k[1]] = np.full(len(f._i), np.nan)
        for j in f.columns.find(k[1])[0]:
            c = f._c[j]
            if isinstance(v, (Ser, np.ndarray, list)):
                v2 = list(v)
            else:
                v2 = [v] * len(p)
            vals = c.tolist() if c.dtype != object else list(c)
            for q, x in zip(p, v2):
                vals[q] = x
            f._c[j] = _arr(vals) if c.dtype != object else Ser(_obj(vals))._a


def _obj(v):
    a = np.empty(len(v), object)
    for i, x in enumerate(v):
        a[i] = x
    return a


class _ILoc:
    def __init__(self, f):
        self._f = f

    def __getitem__(self, k):
        f = self._f
        if isinstance(k, (int, np.integer)):
            return f._row(_in(k, len(f._i)))
        if isinstance(k, tuple) and len(k) == 2:
            r, c = k
            for x, n in ((r, len(f._i)), (c, len(f._l))):
                if isinstance(x, (int, np.integer)):
                    _in(x, n)
            if isinstance(c, (int, np.integer)):
                s = Ser(f._c[c], f._i, f._l[c])
                return s if r == slice(None) else s.iloc[r]
            if isinstance(c, slice) and r == slice(None):
                return Frame._of(f._l[c], f._c[c], f._i)
            if isinstance(c, slice) and isinstance(r, (int, np.integer)):
                return Frame._of(f._l[c], f._c[c], f._i)._row(r)
        if isinstance(k, slice):
            return Frame._of(f._l, [c[k] for c in f._c], f._i[k])
        raise Missing("iloc[%r]" % (k,))

    def __setitem__(self, k, v):
        f = self._f
        if not (isinstance(k, tuple) and len(k) == 2 and isinstance(k[0], (int, np.integer)) and
                isinstance(k[1], (int, np.integer))):
            raise Missing("iloc[%r] = ..." % (k,))
        f.loc[f._i[_in(k[0], len(f._i))], f._l[_in(k[1], len(f._l))]] = v


def concat(frames, axis=0):
    frames = [f for f in frames if f is not None]
    if axis != 1:
        raise Missing("concat of rows")
    n = max(len(f) for f in frames)
    index = next(f._i for f in frames if len(f) == n)
    labels, cols = [], []
    for f in frames:
        if len(f) not in (0, n) or (len(f) and f._i != index):
            raise Missing("concat of tables with different rows")
        labels += f._l
        cols += [c.copy() for c in f._c] if len(f) else [np.full(n, np.nan, object) for _ in f._l]
    return Frame._of(labels, cols, index)


NUM = re.compile(r"^\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?\s*$")


def _infer(texts):
    if all(re.match(r"^\s*[-+]?\d+\s*$", t) for t in texts):
        return np.array([int(t) for t in texts], np.int64)
    if all(NUM.match(t) or t.strip() in ("", "nan", "NaN", "NA") for t in texts):
        return np.array([float(t) if NUM.match(t) else np.nan for t in texts], float)
    return _obj([np.nan if t == "" else t for t in texts])


def read_csv(path, header=0, skiprows=None, sep=",", **k):
    if k or sep != ",":
        raise Missing("read_csv options %s" % sorted(k))
    with open(path, newline="") as f:
        rows = [r for n, r in enumerate(csv.reader(f)) if n not in (skiprows or []) and r]
    if header == [0, 1]:
        a, b, rows = rows[0], rows[1], rows[2:]
        labels = [(x or "Unnamed: %d_level_0" % i, y or "Unnamed: %d_level_1" % i)
                  for i, (x, y) in enumerate(zip(a, b))]
    elif header == 0:
        labels, rows = [x or "Unnamed: %d" % i for i, x in enumerate(rows[0])], rows[1:]
    else:
        raise Missing("read_csv header %r" % (header,))
    rows = [r + [""] * (len(labels) - len(r)) for r in rows]
    return Frame._of(labels, [_infer([r[i] for r in rows]) for i in range(len(labels))], range(len(rows)))
