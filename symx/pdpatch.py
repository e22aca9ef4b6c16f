"""pandas tables that hold symbolic values: a column declared as float or complex holds numbers, whatever their representation.

Only values that contain symbolic scalars are treated differently; concrete runs use pandas as it is."""
import builtins

import numpy as np
import pandas as pd
from pandas.core import indexing
from pandas.core.generic import NDFrame
from pandas.core.internals import blocks

from pandas.core.base import IndexOpsMixin

from .nparr import NUMERALS, SA, from_numeral, from_numerals, has_sym

_done = False


def _number_type(t):
    if t in (builtins.float, builtins.complex, float, complex, "float", "complex", "float64", "complex128"):
        return True
    if isinstance(t, type) and t.__name__ in ("SymFloat", "SymComplex"):
        return True
    try:
        return np.dtype(t).kind in "fc"
    except TypeError:
        return False


def numerals(t):
    """replaces the numerals that stand for symbolic values"""
    if not NUMERALS:
        return t
    if isinstance(t, pd.Series):
        v = from_numerals(t.to_numpy()) if t.dtype.kind == "f" else None
        return pd.Series(v, index=t.index, name=t.name, dtype=object) if isinstance(v, SA) else t
    if isinstance(t, pd.DataFrame):
        cols = [t.iloc[:, i] for i in range(t.shape[1])]
        new = [numerals(c) for c in cols]
        if any(a is not b for a, b in zip(cols, new)):
            r = pd.concat(new, axis=1)
            r.columns = t.columns
            return r
    return t


def install():
    global _done
    if _done:
        return
    _done = True
    coerce = blocks.Block.coerce_to_target_dtype

    def coerce_to_target_dtype(self, other, *a, **k):
        if has_sym(other) and self.dtype.kind in "fciub":
            return self.astype(np.dtype(object))
        return coerce(self, other, *a, **k)

    blocks.Block.coerce_to_target_dtype = coerce_to_target_dtype
    import h5py

    getitem = h5py.Dataset.__getitem__

    def dataset_getitem(self, *a, **k):
        r = getitem(self, *a, **k)
        if NUMERALS:
            if isinstance(r, np.ndarray):
                return from_numerals(r)
            if isinstance(r, np.floating):
                return from_numeral(builtins.float(r))
        return r

    h5py.Dataset.__getitem__ = dataset_getitem
    single = indexing._iLocIndexer._setitem_single_column

    def setitem_single_column(self, loc, value, plane_indexer):
        if has_sym(value) and self.obj.dtypes.iloc[loc].kind in "fciub":
            self.obj.isetitem(loc, self.obj.iloc[:, loc].astype(object))
        return single(self, loc, value, plane_indexer)

    indexing._iLocIndexer._setitem_single_column = setitem_single_column
    astype = NDFrame.astype

    def frame_astype(self, dtype, *a, **k):
        if _number_type(dtype) and has_sym(self):
            return self.copy()
        r = astype(self, dtype, *a, **k)
        return numerals(r) if NUMERALS and _number_type(dtype) else r

    NDFrame.astype = frame_astype
    index_as = pd.Index.astype

    def index_astype(self, dtype, *a, **k):
        if self.dtype == object and _number_type(dtype) and has_sym(self.to_numpy()):
            return self.copy()
        return index_as(self, dtype, *a, **k)

    pd.Index.astype = index_astype
    to_numeric = pd.to_numeric

    def numeric(arg, *a, **k):
        r = to_numeric(arg, *a, **k)
        if NUMERALS and isinstance(r, pd.Series) and r.dtype.kind == "f":
            v = from_numerals(r.to_numpy(dtype="float64", na_value=np.nan))
            if isinstance(v, SA):
                return pd.Series(v.view(np.ndarray), index=r.index, name=r.name, dtype=object)
        return r

    pd.to_numeric = numeric
    for name in ("read_csv", "read_table", "read_fwf"):
        def read(*a, _read=getattr(pd, name), **k):
            return numerals(_read(*a, **k))

        setattr(pd, name, read)
    for cls in (pd.DataFrame, pd.Series):
        init = cls.__init__

        def __init__(self, data=None, index=None, *a, _init=init, **k):
            if a or k.get("dtype") is None or not _number_type(k["dtype"]):
                return _init(self, data, index, *a, **k)
            vals = list(data.values()) if isinstance(data, dict) else data
            if has_sym(vals):
                k["dtype"] = object
            elif isinstance(k["dtype"], type) and k["dtype"].__name__ in ("SymFloat", "SymComplex"):
                k["dtype"] = float if k["dtype"].__name__ == "SymFloat" else complex
            return _init(self, data, index, *a, **k)

        cls.__init__ = __init__
        prop = cls.__dict__.get("values") or getattr(cls, "values")

        def values(self, _get=prop.fget):
            v = _get(self)
            return v.view(SA) if isinstance(v, np.ndarray) and v.dtype == object and has_sym(v) else v

        cls.values = property(values)
    for cls, owner in ((pd.Series, IndexOpsMixin), (pd.DataFrame, pd.DataFrame)):
        to_numpy = owner.to_numpy

        def numpy_values(self, *a, _get=to_numpy, **k):
            if (a or k.get("dtype") is not None) and has_sym(_get(self)):
                return _get(self).view(SA)
            v = _get(self, *a, **k)
            return v.view(SA) if isinstance(v, np.ndarray) and v.dtype == object and has_sym(v) else v

        cls.to_numpy = numpy_values
