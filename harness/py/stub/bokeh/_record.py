import numpy as np

SAVED = []


class Model:
    def __init__(self, *args, **kwargs):
        self.args = args
        for k, v in kwargs.items():
            setattr(self, k, v)


class _Legend:
    """Behaves as the list of legends of a figure, on which properties can be set."""

    def __init__(self):
        object.__setattr__(self, 'n', 0)

    def __bool__(self):
        return self.n > 0

    def __len__(self):
        return self.n


class _Text:
    def __init__(self, text):
        self.text = text


class Glyph:
    def __init__(self, kind, x, y, kwargs):
        self.kind = kind
        self.x = np.array(x, dtype=float)
        self.y = np.array(y, dtype=float)
        self.label = kwargs.get('legend_label')
        self.kwargs = kwargs


class figure(Model):
    def __init__(self, **kwargs):
        super().__init__(**kwargs)
        self.title = _Text(kwargs.get('title', ''))
        self.toolbar = Model()
        self.legend = _Legend()
        self.glyphs = []
        self.spans = []
        self.layouts = []
        self.y_range = kwargs.get('y_range')
        self.x_range = kwargs.get('x_range')

    def _add(self, kind, x, y, kwargs):
        if kwargs.get('legend_label') is not None:
            object.__setattr__(self.legend, 'n', 1)
        g = Glyph(kind, x, y, kwargs)
        self.glyphs.append(g)
        return g

    def line(self, x, y, **kwargs):
        return self._add('line', x, y, kwargs)

    def scatter(self, x, y, **kwargs):
        return self._add('scatter', x, y, kwargs)

    circle = scatter
    step = line

    def quad(self, top, bottom, left, right, **kwargs):
        kwargs['left'] = np.array(left, dtype=float)
        kwargs['right'] = np.array(right, dtype=float)
        return self._add('quad', left, top, kwargs)

    def hspan(self, y, **kwargs):
        self.spans.append(np.atleast_1d(np.array(y, dtype=float)))

    def add_layout(self, obj, place='center'):
        self.layouts.append(obj)

    def add_tools(self, *tools):
        pass
