"""Figures are looked at instead of drawn: nothing is rendered, and map
backgrounds (which would be fetched at drawing time) are never asked for."""
import contextlib
import os

import numpy as np


class Figures(list):
    """(path, figure) of saved figures; fields (axes, x, y, z) shown on maps."""

    def __init__(self):
        list.__init__(self)
        self.fields = []


@contextlib.contextmanager
def recorded():
    """Within the block, saved figures are appended as (path, figure)."""
    import matplotlib
    matplotlib.use("Agg")
    from matplotlib.backend_bases import FigureCanvasBase
    from matplotlib.backends.backend_agg import FigureCanvasAgg
    from matplotlib.figure import Figure
    from cartopy.mpl.geoaxes import GeoAxes
    figures = Figures()
    fields = figures.fields
    contours, mesh = GeoAxes.contourf, GeoAxes.pcolormesh

    def save(self, filename, *args, **kwargs):
        name = os.path.abspath(str(filename))
        if not os.path.splitext(name)[1]:
            name += "." + (kwargs.get("format") or matplotlib.rcParams["savefig.format"])
        figures.append((name, self.figure))
        with open(name, "w") as fh:
            fh.write("figure\n")

    def thin(self, *args, **kwargs):
        # Contours of a few points of the field stand for those of all.
        if len(args) < 3:
            return contours(self, *args, **kwargs)
        x, y, z = (np.ma.asanyarray(a) for a in args[:3])
        fields.append((self, x, y, z))
        r, c = (max(1, -(-n // 12)) for n in z.shape)
        pick = lambda a: a[::r, ::c] if a.ndim == 2 else a[::(c if a is x else r)]
        return contours(self, pick(x), pick(y), pick(z), *args[3:], **kwargs)

    def meshed(self, *args, **kwargs):
        if len(args) == 3:
            fields.append((self,) + tuple(np.ma.asanyarray(a) for a in args))
        return mesh(self, *args, **kwargs)

    def nothing(self, *args, **kwargs):
        return None
    kept = [(c, "print_figure", c.__dict__.get("print_figure"))
            for c in (FigureCanvasBase, FigureCanvasAgg)]
    kept += [(GeoAxes, "contourf", contours), (GeoAxes, "pcolormesh", mesh)]
    GeoAxes.contourf, GeoAxes.pcolormesh = thin, meshed
    kept.append((Figure, "tight_layout", Figure.tight_layout))
    FigureCanvasBase.print_figure = FigureCanvasAgg.print_figure = save
    Figure.tight_layout = nothing
    try:
        yield figures
    finally:
        for owner, name, value in kept:
            if value is None:
                delattr(owner, name)
            else:
                setattr(owner, name, value)
        import matplotlib.pyplot as plt
        plt.close("all")
