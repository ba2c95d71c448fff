from bokeh._record import Model


class Row(Model):
    pass


def row(*children, **kwargs):
    return Row(children=list(children[0]) if len(children) == 1 and isinstance(children[0], list)
               else list(children), **kwargs)


def column(*children, **kwargs):
    return Model(children=list(children[0]) if len(children) == 1 and isinstance(children[0], list)
                 else list(children), **kwargs)


def layout(*args, children=None, **kwargs):
    rows = children if children is not None else (args[0] if len(args) == 1 else list(args))
    return Model(children=[Row(children=list(r)) for r in rows], **kwargs)


gridplot = layout
