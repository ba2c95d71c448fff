import os

from bokeh._record import Model


class Theme(Model):
    def __init__(self, filename=None, json=None):
        if filename is not None and not os.path.isfile(filename):
            raise FileNotFoundError(filename)
        self.filename = filename
