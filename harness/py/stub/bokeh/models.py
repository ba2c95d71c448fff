from bokeh._record import Model


class ColumnDataSource(Model):
    def __init__(self, data=None, **kwargs):
        super().__init__(**kwargs)
        self.data = data if data is not None else kwargs.get('data', {})


def __getattr__(name):
    if name.startswith('_'):
        raise AttributeError(name)
    cls = type(name, (Model,), {})
    globals()[name] = cls
    return cls
