from bokeh._record import SAVED, figure  # noqa: F401
from bokeh.models import ColumnDataSource  # noqa: F401


class _Doc:
    theme = None


_DOC = _Doc()


def curdoc():
    return _DOC


def save(obj=None, filename=None, **kwargs):
    SAVED.append((filename, obj, kwargs))
    with open(filename, 'w') as f:
        f.write('<html></html>')
    return filename


def output_file(*args, **kwargs):
    pass


def show(*args, **kwargs):
    pass
