"""Generated storm tracks."""
from datetime import datetime, timedelta

from hypothesis import strategies as st

from .gen import dec, edge

FIELDS = ("Indicator", "CycloneNumber", "Year", "Month", "Day", "Hour", "Minute",
          "TimeElapsed", "Datetime", "Longitude", "Latitude", "Speed", "Bearing",
          "CentralPressure", "WindSpeed", "rMax", "EnvPressure")


def make(points, tid=(0, 1), start=(2000, 1, 1), step=1.0, ftype="f8", trackfile=None):
    """A Track from a list of dicts with lon, lat, cp, ep, rm, sp, be."""
    import numpy as np
    from Utilities.track import Track
    dt = np.dtype([(n, "O" if n == "Datetime" else
                    ("i4" if n in ("Indicator", "CycloneNumber", "Year", "Month", "Day",
                                   "Hour", "Minute") else ftype)) for n in FIELDS])
    data = np.zeros(len(points), dtype=dt)
    t0 = datetime(*start)
    for k, p in enumerate(points):
        t = t0 + timedelta(hours=step * k)
        data[k] = (1 if k == 0 else 0, tid[1], t.year, t.month, t.day, t.hour, t.minute,
                   step * k, t, p["lon"], p["lat"], p["sp"], p["be"], p["cp"],
                   p.get("ws", 0.0), p["rm"], p["ep"])
    tr = Track(data)
    tr.trackId = tid
    tr.trackfile = trackfile
    return tr


@st.composite
def points(draw, lon, lat, n=(1, 6), places=2, jump=0.6, weak=True):
    """Consecutive positions starting around (lon, lat)."""
    k = draw(st.integers(*n))
    x = draw(dec(lon[0], lon[1], places))
    y = draw(dec(lat[0], lat[1], places))
    ep = draw(dec(1000, 1014, 1))
    out = []
    for i in range(k):
        lo = 0.0 if weak else 10.0
        dp = draw(edge(dec(max(lo, 5), 90, 1), *([0.0, -1.0, 1.0] if weak else [40.0])))
        out.append({"lon": x, "lat": y, "ep": round(ep + draw(st.sampled_from([0, 0, 0.5, -1])), 1),
                    "cp": round(ep - dp, 1), "rm": draw(dec(8, 90, 1)),
                    "sp": draw(edge(dec(0, 60, 1), 0.0)), "be": draw(dec(0, 359.9, 1))})
        x = round(x + draw(dec(-jump, jump, places)), places)
        y = round(y + draw(dec(-jump, jump, places)), places)
    return out
