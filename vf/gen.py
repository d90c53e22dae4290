"""Shared generators."""
from hypothesis import strategies as st


def dec(lo, hi, places=2):
    """Decimal numbers with few digits in [lo, hi]."""
    s = 10 ** places
    return st.integers(int(round(lo * s)), int(round(hi * s))).map(lambda i: i / s)


def edge(strategy, *values):
    """Mostly `strategy`, sometimes one of the given corner values."""
    return st.one_of(strategy, strategy, strategy, st.sampled_from(list(values)))


@st.composite
def storm(draw, min_lat=1, max_lat=45, hemisphere=None):
    """A valid storm: latitude, pressures (Pa), radius (m), beta."""
    lat = draw(edge(dec(min_lat, max_lat), float(min_lat), 20.0))
    sign = draw(st.sampled_from([-1, 1])) if hemisphere is None else hemisphere
    ep = draw(dec(990, 1020, 1)) * 100
    dp = draw(edge(dec(2, 110, 1), 2.0, 14.9, 15.0, 15.1, 60.0)) * 100
    rmax = draw(edge(dec(6, 120, 1), 10.0, 40.0)) * 1000
    beta = draw(edge(dec(0.8, 2.5, 2), 1.0, 1.3, 2.0))
    return {"lat": sign * lat, "eP": ep, "cP": round(ep - dp, 1),
            "rMax": rmax, "beta": beta}


@st.composite
def radii(draw, rmax_key=True, lo=1, hi=40):
    """Radii as multiples of rMax: inside, at, next to and far outside."""
    item = st.one_of(dec(0.01, 1, 3), dec(1, 3, 3), dec(3, 30, 2),
                     st.sampled_from([1.0, 0.999, 1.001, 0.5, 2.0, 1.2, 1e-4, 60.0]))
    return draw(st.lists(item, min_size=lo, max_size=hi))
