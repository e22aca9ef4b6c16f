"""figures and widgets which only record what they are given (for this process)"""
import contextlib

import elli.fitting  # noqa: F401  (loads the plotting and widget libraries once)
import pandas as pd
import plotly.graph_objects as go
from ipywidgets import widgets


class Widget:
    def __init__(self, *args, **k):
        self.args = args
        self.value = k.pop("value", args[0] if args else None)
        self.watch, self.click = [], []
        self.__dict__.update(k)

    def observe(self, fn, names=None, **k):
        if fn not in self.watch:
            self.watch.append(fn)

    def unobserve(self, fn, names=None, **k):
        if fn in self.watch:
            self.watch.remove(fn)

    def on_click(self, fn):
        self.click.append(fn)

    # what a user does
    def press(self):
        for fn in list(self.click):
            fn(self)

    def enter(self, v):
        class Change:
            new, old, owner, name = v, self.value, self, "value"

        self.value = v
        for fn in list(self.watch):
            fn(Change)


class Button(Widget):
    made = []

    def __init__(self, *args, **k):
        super().__init__(*args, **k)
        Button.made.append(self)


class Trace:
    def __init__(self, x=None, y=None, name=None, **k):
        self.x, self.y, self.name = x, y, name


class Fig:
    """what a figure was told to show"""

    def __init__(self, data=None, **k):
        if isinstance(data, Fig):
            self.data = data.data
        elif isinstance(data, pd.DataFrame):
            self.data = [Trace(list(data.index), data[c], c) for c in data.columns]
        else:
            self.data = list(data or [])

    def add_trace(self, t, row=None, col=None, **k):
        t.row, t.col = row, col
        self.data.append(t)

    def update_layout(self, *a, **k):
        return self

    update_xaxes = update_yaxes = update_layout

    def batch_update(self):
        return contextlib.nullcontext()


def stubs(h):
    """this process only runs one case"""
    go.FigureWidget = go.Figure = Fig
    go.Scatter = Trace
    h.mod("elli.plot.mueller_matrix").make_subplots = lambda *a, **k: Fig()
    for name in ("Dropdown", "Checkbox", "BoundedFloatText", "FloatText", "HBox", "VBox"):
        setattr(widgets, name, Widget)
    Button.made = []
    widgets.Button = Button
    pd.DataFrame.plot = property(lambda self: lambda *a, **k: self)


