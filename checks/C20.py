"""Genesis frequency and simulation domain of a historical record."""
import math
import os

from hypothesis import strategies as st

from vf import Property, check, scratch
from vf.gen import dec, edge

TECHNIQUE = "property-based comparison of the domain and the frequency with brute-force counts"
NOTE = ("records of up to 12 storms in and around generated regions, including positions exactly "
        "on a border, storms that leave and return, and years without storms")

prop = Property("C20", preload=("numpy", "DataProcess.CalcTrackDomain", "DataProcess.CalcFrequency"),
                assumptions=["longitudes of storms and region use the same convention",
                             "the record spans at least two years"])


@st.composite
def regions(draw):
    x, y = draw(st.integers(90, 250)), draw(st.integers(-40, 30))
    whole = draw(st.booleans())
    f = 0 if whole else draw(st.sampled_from([0.5, 0.25]))
    return {"xMin": x + f, "xMax": x + f + draw(st.integers(2, 30)),
            "yMin": y + f, "yMax": y + f + draw(st.integers(2, 20))}


@st.composite
def storms(draw, region, nmax=12):
    out = []
    xs, ys = (region["xMin"], region["xMax"]), (region["yMin"], region["yMax"])
    for _ in range(draw(st.integers(1, nmax))):
        n = draw(edge(st.integers(1, 10), 1, 2))
        near = draw(st.integers(0, 3))
        if near == 0:
            x, y = xs[0] - draw(dec(0, 40, 2)), ys[0] - draw(dec(0, 20, 2))
        else:
            x = xs[0] + draw(dec(-0.5, 1.5, 2)) * (xs[1] - xs[0])
            y = ys[0] + draw(dec(-0.5, 1.5, 2)) * (ys[1] - ys[0])
        pts = []
        for i in range(n):
            if i:
                x += draw(dec(-6, 6, 2))
                y += draw(dec(-4, 4, 2))
            if draw(st.integers(0, 9)) == 0:
                x = draw(st.sampled_from(list(xs)))
            if draw(st.integers(0, 9)) == 0:
                y = draw(st.sampled_from(list(ys)))
            pts.append([round(x, 2), round(max(-85.0, min(85.0, y)), 2)])
        out.append(pts)
    return out


@st.composite
def domains(draw):
    region = draw(regions())
    return {"region": region, "storms": draw(storms(region)),
            "how": draw(st.sampled_from(["arrays", "float32", "file"]))}


def inside(p, box):
    return box["xMin"] <= p[0] <= box["xMax"] and box["yMin"] <= p[1] <= box["yMax"]


def smallest(case):
    r = case["region"]
    pts = [[r["xMin"], r["yMin"]], [r["xMax"], r["yMax"]]]
    entered = 0
    for s in case["storms"]:
        hits = [i for i, p in enumerate(s) if inside(p, r)]
        if hits:
            entered += 1
            pts += s[:hits[-1] + 1]
    return {"xMin": math.floor(min(p[0] for p in pts)), "xMax": math.ceil(max(p[0] for p in pts)),
            "yMin": math.floor(min(p[1] for p in pts)), "yMax": math.ceil(max(p[1] for p in pts))
            }, entered


def config_file(path, region, more=""):
    from Utilities import config
    config.reset()
    ini = os.path.join(path, "tc.ini")
    with open(ini, "w") as fh:
        fh.write("[Output]\nPath=%s\n\n[Region]\ngridLimit=%r\n\n%s" % (path, region, more))
    return ini


def find(case, path):
    import numpy as np
    from DataProcess.CalcTrackDomain import CalcTrackDomain
    flat = [(int(i == 0), p[0], p[1]) for s in case["storms"] for i, p in enumerate(s)]
    ini = config_file(path, case["region"])
    calc = CalcTrackDomain(ini)
    if case["how"] == "file" and len(flat) > 1:
        os.makedirs(os.path.join(path, "process"), exist_ok=True)
        with open(os.path.join(path, "process", "cyclone_tracks"), "w") as fh:
            fh.write("%Cyclone Origin,Longitude,Latitude, LSflag\n")
            for i, x, y in flat:
                fh.write("%6.2f,%6.2f,%6.2f,%6.2f\n" % (i, x, y, 0))
        return calc.calcDomainFromFile()
    kind = "f4" if case["how"] == "float32" else "f8"
    idx, x, y = (np.array(v) for v in zip(*flat))
    return calc.calcDomainFromTracks(idx, x.astype(kind), y.astype(kind))


def grow(case, got, what):
    want, entered = smallest(case)
    if case["how"] == "float32":
        # a position may round across a whole degree only if it lies on it
        for k in want:
            check(abs(got[k] - want[k]) <= 1e-9, "%s: %s is %r, should be %r" % (what, k, got[k], want[k]))
    else:
        check({k: float(v) for k, v in got.items()} == {k: float(v) for k, v in want.items()},
              "%s is %r, should be %r" % (what, got, want))
    return entered


@prop.facet(domains, quick=1500, rule="the domain is the smallest whole-degree box that qualifies")
def domain(case, ctx):
    path = scratch()
    got = find(case, path)
    before = dict(case["region"])
    entered = grow(case, got, "domain")
    check(case["region"] == before, "the region itself changed")
    ctx.klass(case["how"])
    if any(len(s) > 1 and inside(s[0], before) and not inside(s[-1], before)
           for s in case["storms"]):
        ctx.klass("leaves-region")
    ctx.nontrivial(0 < entered < len(case["storms"]))
    # storms that never enter make no difference, nor does the order of storms
    stay = [s for s in case["storms"] if any(inside(p, before) for p in s)]
    if stay and case["how"] == "arrays":
        again = find(dict(case, storms=stay[::-1]), path)
        check(again == got, "without the storms that never enter: %r, with them %r" % (again, got))


@st.composite
def counts(draw):
    region = draw(regions())
    n = draw(st.integers(6, 30))
    y0 = draw(st.integers(1880, 2020))
    span = draw(st.sampled_from([2, 3, 1, 4, 6, 9]))
    years = [y0 + draw(st.integers(0, span)) for _ in range(n - 2)] + [y0, y0 + span]
    if draw(st.booleans()):
        years = sorted(years)
    w, h = region["xMax"] - region["xMin"], region["yMax"] - region["yMin"]
    part = edge(dec(-0.2, 1.2, 2), 0.0, 1.0)
    pts = [[round(region["xMin"] + draw(part) * w, 2), round(region["yMin"] + draw(part) * h, 2)]
           for _ in range(n)]
    return {"region": region, "years": years, "points": pts,
            "own": draw(st.booleans()), "shift": draw(st.integers(1, 9))}


@prop.facet(counts, quick=700, rule="frequency is the mean yearly number forming inside the domain")
def frequency(case, ctx):
    from DataProcess.CalcFrequency import CalcFrequency
    path = scratch()
    os.makedirs(os.path.join(path, "process"))
    with open(os.path.join(path, "process", "origin_year"), "w") as fh:
        fh.write("%Year\n" + "".join("%d\n" % y for y in case["years"]))
    with open(os.path.join(path, "process", "origin_lon_lat"), "w") as fh:
        fh.write("%Longitude, Latitude, LSFlag\n"
                 + "".join("%6.2f,%6.2f,%6.2f\n" % (p[0], p[1], 0) for p in case["points"]))
    box = case["region"]
    other = {k: v + case["shift"] for k, v in box.items()}
    if case["own"]:
        # a domain set in the configuration takes precedence
        ini = config_file(path, other, "[TrackGenerator]\ngridLimit=%r\n" % box)
        calc = CalcFrequency(ini, other)
    else:
        calc = CalcFrequency(config_file(path, other), box)
    got = float(calc.calc())
    last = max(case["years"])
    years = range(min(case["years"]), last)
    by = {y: 0 for y in years}
    for y, p in zip(case["years"], case["points"]):
        if (y < last and box["xMin"] < p[0] < box["xMax"] and box["yMin"] < p[1] < box["yMax"]):
            by[y] += 1
    want = sum(by.values()) / float(len(by))
    check(abs(got - want) <= 0.00501, "frequency %r, should be %r" % (got, want))
    with open(os.path.join(path, "process", "region_frequency")) as fh:
        rows = [line.strip().split(",") for line in fh if not line.startswith("#")]
    check([(int(a), int(b)) for a, b in rows] == sorted(by.items()),
          "yearly counts %r, should be %r" % (rows, sorted(by.items())))
    ctx.klass("own" if case["own"] else "given")
    ctx.nontrivial(0 < sum(by.values()) < len(case["points"]) and len(by) > 1)
