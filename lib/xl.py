"""Helpers to drive xlrd through its public API."""
import io
import mc

xlrd = mc.setup_import()
from xlrd import (XL_CELL_BLANK, XL_CELL_BOOLEAN, XL_CELL_DATE, XL_CELL_EMPTY,  # noqa
                  XL_CELL_ERROR, XL_CELL_NUMBER, XL_CELL_TEXT, XLRDError)


class Null(object):
    """A logfile that swallows everything."""
    def write(self, s):
        pass

    def flush(self):
        pass


NULL = Null()


def open_bytes(data, **kw):
    kw.setdefault("logfile", NULL)
    return xlrd.open_workbook(file_contents=data, **kw)


def veq(a, b):
    """Exact equality of cell values: same Python type class, floats bit for bit."""
    if isinstance(a, float) or isinstance(b, float):
        return type(a) is type(b) and repr(a) == repr(b)
    if isinstance(a, str) != isinstance(b, str):
        return False
    return a == b


def grid(sh):
    """Everything the sheet says about its cells, through cell_type/cell_value."""
    out = []
    for r in range(sh.nrows):
        out.append([(sh.cell_type(r, c), sh.cell_value(r, c)) for c in range(sh.row_len(r))])
    return out


def grid_key(sh):
    return (sh.nrows, sh.ncols, tuple(tuple((t, repr(v)) for t, v in row) for row in grid(sh)))


def raises(exc, fn, *a, **k):
    try:
        fn(*a, **k)
    except exc:
        return True
    return False
