"""Stand-in for the parts of pandas that table-reading scripts use (pandas is not installed here).

A table is columns of numbers (or strings) over row labels; as in pandas, `series[i]` looks a row up by
its label, and dropping rows keeps the labels of the others.
"""
import csv

import numpy as np


class Series:
    __array_priority__ = 1000

    def __init__(self, data=None, index=None, name=None, dtype=None):
        self._v = np.array([] if data is None else data, dtype=dtype)
        self._i = list(range(len(self._v))) if index is None else list(index)
        self.name = name

    # Conversions
    def __array__(self, dtype=None, copy=None):
        return np.array(self._v, dtype=dtype)

    @property
    def values(self):
        return self._v

    array = values

    def to_numpy(self, dtype=None, copy=False):
        return np.array(self._v, dtype=dtype)

    def to_list(self):
        return self._v.tolist()

    tolist = to_list

    def astype(self, dtype):
        return Series(self._v.astype(dtype), self._i, self.name)

    def copy(self, deep=True):
        return Series(self._v.copy(), self._i, self.name)

    def reset_index(self, drop=False):
        return Series(self._v, None, self.name)

    # Shape
    def __len__(self):
        return len(self._v)

    def __iter__(self):
        return iter(self._v.tolist())

    @property
    def index(self):
        return list(self._i)

    @property
    def size(self):
        return len(self._v)

    @property
    def shape(self):
        return self._v.shape

    @property
    def empty(self):
        return len(self._v) == 0

    @property
    def dtype(self):
        return self._v.dtype

    def items(self):
        return zip(self._i, self._v.tolist())

    # Selection
    def __getitem__(self, key):
        if isinstance(key, slice):
            return Series(self._v[key], self._i[key], self.name)
        if isinstance(key, (Series, list, np.ndarray)):
            key = np.asarray(key)
            if key.dtype == bool:
                return Series(self._v[key], [i for i, k in zip(self._i, key) if k], self.name)
            return Series([self[k] for k in key], key, self.name)
        try:
            return self._v[self._i.index(key)]
        except ValueError:
            raise KeyError(key) from None

    def get(self, key, default=None):
        try:
            return self[key]
        except KeyError:
            return default

    @property
    def loc(self):
        return self

    @property
    def iloc(self):
        series = self

        class _Iloc:
            def __getitem__(self, key):
                if isinstance(key, (int, np.integer)):
                    return series._v[key]
                return Series(series._v[key], np.array(series._i)[key], series.name)
        return _Iloc()

    def head(self, n=5):
        return self[:n]

    def tail(self, n=5):
        return self[-n:]

    def dropna(self):
        keep = ~np.isnan(self._v.astype(float))
        return self[keep]

    # Numbers
    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kwargs):
        plain = [np.asarray(x) if isinstance(x, Series) else x for x in inputs]
        if out is not None:
            kwargs['out'] = out
        result = getattr(ufunc, method)(*plain, **kwargs)
        if out is not None or method != '__call__' or np.ndim(result) != 1:
            return result
        return Series(result, self._i, self.name)

    def _binary(self, other, f):
        return Series(f(self._v, np.asarray(other) if not np.isscalar(other) else other), self._i)

    def __add__(self, o): return self._binary(o, np.add)
    def __radd__(self, o): return self._binary(o, lambda a, b: np.add(b, a))
    def __sub__(self, o): return self._binary(o, np.subtract)
    def __rsub__(self, o): return self._binary(o, lambda a, b: np.subtract(b, a))
    def __mul__(self, o): return self._binary(o, np.multiply)
    def __rmul__(self, o): return self._binary(o, lambda a, b: np.multiply(b, a))
    def __truediv__(self, o): return self._binary(o, np.divide)
    def __rtruediv__(self, o): return self._binary(o, lambda a, b: np.divide(b, a))
    def __pow__(self, o): return self._binary(o, np.power)
    def __mod__(self, o): return self._binary(o, np.mod)
    def __neg__(self): return Series(-self._v, self._i, self.name)
    def __abs__(self): return Series(np.abs(self._v), self._i, self.name)
    def __eq__(self, o): return self._binary(o, np.equal)
    def __ne__(self, o): return self._binary(o, np.not_equal)
    def __lt__(self, o): return self._binary(o, np.less)
    def __le__(self, o): return self._binary(o, np.less_equal)
    def __gt__(self, o): return self._binary(o, np.greater)
    def __ge__(self, o): return self._binary(o, np.greater_equal)
    def __and__(self, o): return self._binary(o, np.logical_and)
    def __or__(self, o): return self._binary(o, np.logical_or)
    def __invert__(self): return Series(np.logical_not(self._v), self._i)
    __hash__ = None

    def __bool__(self):
        raise ValueError('The truth value of a Series is ambiguous.')

    abs = __abs__

    def sum(self, **kw): return self._v.sum()
    def mean(self, **kw): return self._v.mean() if len(self._v) else float('nan')
    def max(self, **kw): return self._v.max() if len(self._v) else float('nan')
    def min(self, **kw): return self._v.min() if len(self._v) else float('nan')
    def std(self, ddof=1, **kw): return self._v.std(ddof=ddof)
    def var(self, ddof=1, **kw): return self._v.var(ddof=ddof)
    def median(self, **kw): return np.median(self._v)
    def any(self, **kw): return bool(self._v.any())
    def all(self, **kw): return bool(self._v.all())
    def count(self): return int(np.sum(~np.isnan(self._v.astype(float))))
    def unique(self): return np.unique(self._v)
    def isna(self): return Series(np.isnan(self._v.astype(float)), self._i)
    def cumsum(self, **kw): return Series(np.cumsum(self._v), self._i)
    def diff(self): return Series(np.concatenate([[np.nan], np.diff(self._v)]), self._i)

    def idxmax(self): return self._i[int(np.argmax(self._v))]
    def idxmin(self): return self._i[int(np.argmin(self._v))]


class DataFrame:
    def __init__(self, data=None, index=None, columns=None):
        data = {} if data is None else data
        self._c = {k: np.asarray(v) for k, v in data.items()}
        n = len(next(iter(self._c.values()))) if self._c else 0
        self._i = list(range(n)) if index is None else list(index)
        self.attrs = {}

    def keys(self):
        return list(self._c)

    @property
    def columns(self):
        return list(self._c)

    @property
    def index(self):
        return list(self._i)

    @property
    def empty(self):
        return not self._c or not self._i

    @property
    def shape(self):
        return len(self._i), len(self._c)

    def __contains__(self, key):
        return key in self._c

    def __iter__(self):
        return iter(self._c)

    def __len__(self):
        return len(self._i)

    def __bool__(self):
        raise ValueError('The truth value of a DataFrame is ambiguous.')

    def _rows(self, keep):
        out = DataFrame({k: v[keep] for k, v in self._c.items()},
                        [i for i, k in zip(self._i, keep) if k])
        out.attrs = dict(self.attrs)
        return out

    def __getitem__(self, key):
        if isinstance(key, str):
            return Series(self._c[key], self._i, key)
        if isinstance(key, list) and all(isinstance(k, str) for k in key):
            out = DataFrame({k: self._c[k] for k in key}, self._i)
            out.attrs = dict(self.attrs)
            return out
        return self._rows(np.asarray(key, dtype=bool))

    def __setitem__(self, key, value):
        self._c[key] = np.asarray(value)

    def get(self, key, default=None):
        return self[key] if key in self._c else default

    def dropna(self):
        keep = np.ones(len(self._i), dtype=bool)
        for v in self._c.values():
            if v.dtype.kind == 'f':
                keep &= ~np.isnan(v)
        return self._rows(keep)

    def reset_index(self, drop=False):
        out = DataFrame(self._c)
        out.attrs = dict(self.attrs)
        return out

    def copy(self, deep=True):
        out = DataFrame({k: v.copy() for k, v in self._c.items()}, self._i)
        out.attrs = dict(self.attrs)
        return out

    def to_numpy(self, dtype=None):
        return np.array([self._c[k] for k in self._c], dtype=dtype).T

    @property
    def values(self):
        return self.to_numpy()

    @property
    def iloc(self):
        frame = self

        class _Iloc:
            def __getitem__(self, key):
                if isinstance(key, (int, np.integer)):
                    return Series([v[key] for v in frame._c.values()], list(frame._c))
                keep = np.zeros(len(frame._i), dtype=bool)
                keep[key] = True
                return frame._rows(keep)
        return _Iloc()


def read_csv(path, **kwargs):
    with open(path, newline='') as f:
        rows = [r for r in csv.reader(f) if r]
    if not rows:
        raise ValueError('No columns to parse from file')
    names, rows = rows[0], rows[1:]
    if any(len(r) > len(names) for r in rows):
        raise ValueError(f'{path}: a row has more fields than the header')
    columns = {}
    for k, name in enumerate(names):
        cells = [r[k] if k < len(r) else '' for r in rows]
        try:
            columns[name] = np.array([int(c) for c in cells], dtype=np.int64)
        except ValueError:
            try:
                columns[name] = np.array([float(c) if c.strip() else np.nan for c in cells])
            except ValueError:
                columns[name] = np.array(cells, dtype=object)
    return DataFrame(columns)
