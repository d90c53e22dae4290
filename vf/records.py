"""Made-up historical storm records and the files that hold them."""
import os
from datetime import datetime, timedelta

from hypothesis import strategies as st

from vf.gen import dec, edge

DATE_FORMATS = ["%Y-%m-%d %H:%M:%S", "%Y-%m-%d %H:%M", "%Y%m%d%H%M", "%d/%m/%Y %H:%M",
                "%Y-%m-%dT%H:%M:%S", "%d-%b-%Y %H:%M", "%Y %j %H%M"]
SPEED = {"mps": 1.0, "kph": 1 / 3.6, "kts": 1852.0 / 3600, "mph": 0.44704}
PRESSURE = {"hPa": 1.0, "Pa": 0.01, "kPa": 10.0, "Pascals": 0.01, "inHg": 33.86389,
            "mmHg": 1.333224}
LENGTH = {"km": 1.0, "nm": 1.852, "mi": 1.609344, "m": 0.001}
MISSING = ["", "0", "-999", "9999"]


@st.composite
def records(draw, max_storms=7, max_obs=9, min_storms=1, lonspan=None, steps=None):
    """Flat list of observations, with the storm each belongs to."""
    rows = []
    nstorm = draw(st.one_of(st.integers(max(3, min_storms), max_storms),
                            st.integers(min_storms, max_storms)))
    t = datetime(draw(st.integers(1950, 2030)), draw(st.integers(1, 12)),
                 draw(st.integers(1, 28)), draw(st.integers(0, 23)),
                 draw(st.sampled_from([0, 0, 30, 45, 7])))
    sign = draw(st.sampled_from([-1, -1, 1]))
    lon0, lat0 = draw(lonspan or st.sampled_from([150.0, 120.0, 178.0, 0.5, 300.0, 359.0])), 15.0
    lon, lat = lon0, sign * lat0
    step = draw(steps or st.sampled_from([360, 360, 180, 60, 30, 90, 20, 1440]))
    even = draw(st.booleans())
    sid = 0
    for k in range(nstorm):
        n = draw(edge(st.integers(1, max_obs), 1, 2))
        sid += 1 if draw(st.integers(0, 7)) else 0
        if k:
            gap = draw(edge(st.integers(1, 400), -5, 0, 24))
            t = t + timedelta(hours=gap)
            if draw(st.booleans()):
                lon = lon0 + draw(st.integers(-400, 400)) / 10.0
                lat = sign * draw(st.integers(20, 400)) / 10.0
        course = (draw(st.integers(-15, 15)), draw(st.integers(-9, 9)))
        p = draw(st.integers(8800, 10100))
        for i in range(n):
            if i:
                t = t + timedelta(minutes=step if even else
                                  draw(edge(st.integers(1, 900), 0, 60, 360)))
                big = draw(st.integers(0, 30)) == 0
                far = draw(st.sampled_from([(120, 0), (-120, 0), (0, 60), (0, -60), (99, 49),
                                            (-160, 20), (151, 0), (-149, 3)])) if big else (0, 0)
                lon = lon + (course[0] + draw(st.integers(-3, 3)) + far[0]) / 10.0
                lat = lat + (course[1] + draw(st.integers(-3, 3)) + far[1]) / 10.0
                lat = max(-60.0, min(60.0, lat))
                p = max(8700, min(10200, p + draw(st.integers(-80, 80))))
            rows.append({"sid": sid, "t": [t.year, t.month, t.day, t.hour, t.minute],
                         "lon": round(lon, 2) % 360.0, "lat": round(lat, 2),
                         "p": p / 10.0, "gone": draw(st.integers(0, 5)) == 0,
                         "v": draw(st.integers(0, 900)) / 10.0,
                         "r": draw(st.integers(50, 1500)) / 10.0,
                         "vgone": draw(st.integers(0, 7)) == 0,
                         "rgone": draw(st.integers(0, 7)) == 0,
                         "env": draw(st.integers(10000, 10150)) / 10.0})
    for k in ("vgone", "rgone"):
        if all(r[k] for r in rows):
            # a column without a single value is not a column
            rows[0][k] = False
    return rows


@st.composite
def layouts(draw, ids=("serial", "season", "num", "index"), dates=None):
    return {"ids": draw(st.sampled_from(list(ids))),
            "dates": draw(st.sampled_from(dates or ["date", "date", "date", "columns", "minute",
                                                    "hhmm", "age"])),
            "fmt": draw(st.sampled_from(DATE_FORMATS)),
            "speed": draw(st.sampled_from(sorted(SPEED))),
            "pressure": draw(st.sampled_from(sorted(PRESSURE))),
            "length": draw(st.sampled_from(sorted(LENGTH))),
            "missing": draw(st.sampled_from(MISSING)),
            "delimiter": draw(st.sampled_from([",", ",", ";", "|"])),
            "heading": draw(st.integers(0, 3)), "west": draw(st.booleans()),
            "vmax": draw(st.booleans()), "rmax": draw(st.booleans()),
            "blanks": draw(st.booleans()), "whole": draw(st.booleans()),
            "outer": draw(st.sampled_from(["penv", "both"])),
            "pad": draw(st.sampled_from(["", " "])),
            "order": draw(st.randoms(use_true_random=False)).sample(range(24), 24),
            "skips": draw(st.integers(0, 4))}


def when(row):
    return datetime(*row["t"])


def _text(value, factor, places):
    return "%.*f" % (places, value / factor)


def columns(case, rows=None):
    """Column names and cell texts."""
    lay, rows = case["layout"], case["rows"] if rows is None else rows
    out = {}
    prev = None
    index = []
    for r in rows:
        index.append(int(prev is None or r["sid"] != prev))
        prev = r["sid"]
    if lay["ids"] == "serial":
        out["tcserialno"] = ["%dS%03d" % (1990 + r["sid"] // 5, r["sid"]) for r in rows]
    if lay["ids"] in ("season", "serial"):
        out["season"] = [str(season(r)) for r in rows]
    if lay["ids"] in ("season", "num"):
        # numbers start again each season
        out["num"] = [str((1, 2, 1)[r["sid"] % 3] if lay["ids"] == "season" else
                          r["sid"] * 7 % 5 + 1) for r in rows]
    if lay["ids"] == "index":
        out["index"] = [str(i) for i in index]
    if lay["dates"] == "date":
        out["date"] = [when(r).strftime(lay["fmt"]) for r in rows]
    elif lay["dates"] == "age":
        start, ages = None, []
        for r, i in zip(rows, splits(case, rows, case.get("across", 10.0))):
            if i:
                start = when(r)
            ages.append(repr((when(r) - start).total_seconds() / 3600.0))
        out["age"] = ages
    else:
        for n in ("year", "month", "day"):
            out[n] = [str(getattr(when(r), n)) for r in rows]
        if lay["dates"] == "hhmm":
            out["hour"] = ["%d%02d" % (when(r).hour, when(r).minute) for r in rows]
        else:
            out["hour"] = [str(when(r).hour) for r in rows]
        if lay["dates"] == "minute":
            out["minute"] = [str(when(r).minute) for r in rows]
    out["lon"] = ["%.2f" % (r["lon"] - 360.0 if lay["west"] and r["lon"] > 180 else r["lon"])
                  for r in rows]
    out["lat"] = ["%.2f" % r["lat"] for r in rows]
    out["pressure"] = [lay["missing"] if r["gone"] else
                       _text(r["p"], PRESSURE[lay["pressure"]], 4) for r in rows]
    if lay["vmax"]:
        # whole numbers in the units of the file, if any fit
        out["vmax"] = ["" if lay["blanks"] and r["vgone"] else
                       _text(r["v"], SPEED[lay["speed"]], 0 if lay["whole"] else 4) for r in rows]
    if lay["rmax"]:
        out["rmax"] = ["" if lay["blanks"] and r["rgone"] else
                       _text(r["r"], LENGTH[lay["length"]], 3) for r in rows]
    if lay["outer"] in ("penv", "both"):
        out["penv"] = [_text(r["env"], PRESSURE[lay["pressure"]], 4) for r in rows]
    if lay["outer"] in ("poci", "both"):
        out["poci"] = [_text(r["env"] - 2.0, PRESSURE[lay["pressure"]], 4) for r in rows]
    return out


def season(row):
    """Two storms, then one, in each pair of seasons; seasons are not in order in the file."""
    block = 2 * (row["sid"] // 3) + int(row["sid"] % 3 == 2)
    return 1980 + block * 3 % 7


def splits(case, rows=None, across=10.0, up=5.0):
    """1 where a storm starts: a new identifier, or a jump."""
    rows = case["rows"] if rows is None else rows
    out = []
    for i, r in enumerate(rows):
        if i == 0 or rows[i - 1]["sid"] != r["sid"]:
            out.append(1)
            continue
        dx = abs((r["lon"] - rows[i - 1]["lon"] + 180.0) % 360.0 - 180.0)
        dy = abs(r["lat"] - rows[i - 1]["lat"])
        out.append(int(dx > across or dy > up))
    return out


def borderline(rows, across, up=5.0):
    """Whether a step is so close to the splitting size that rounding decides."""
    for a, b in zip(rows, rows[1:]):
        dx = abs((b["lon"] - a["lon"] + 180.0) % 360.0 - 180.0)
        if abs(dx - across) < 2e-3 or abs(abs(b["lat"] - a["lat"]) - up) < 2e-3:
            return True
    return False


def write(case, path, name="obs.csv", ini="tc.ini", rows=None, extra="", start=1900,
          filtering=False):
    """Write the observations and the configuration that describes them."""
    lay = case["layout"]
    cols = columns(case, rows)
    n = len(next(iter(cols.values())))
    names = sorted(cols)
    for k in range(lay["skips"]):
        names.append("skip%d" % k)
    order = [i for i in lay["order"] if i < len(names)]
    order += [i for i in range(len(names)) if i not in order]
    names = [names[i] for i in order]
    d = lay["delimiter"]
    lines = ["heading %d%sof the file" % (k, d) for k in range(lay["heading"])]
    for i in range(n):
        lines.append(d.join(lay["pad"] + (cols[c][i] if c in cols else "junk%d" % i)
                            for c in names))
    data = os.path.join(path, name)
    with open(data, "w") as fh:
        fh.write("\n".join(lines) + "\n")
    conf = os.path.join(path, ini)
    with open(conf, "w") as fh:
        fh.write("""[DataProcess]
InputFile=%s
Source=MADEUP
StartSeason=%d
FilterSeasons=%s

[MADEUP]
Columns=%s
FieldDelimiter=%s
NumberOfHeadingLines=%d
SpeedUnits=%s
PressureUnits=%s
LengthUnits=%s
DateFormat=%s

%s
""" % (data, start, filtering, d.join("skip" if c.startswith("skip") else c for c in names), d,
            lay["heading"], lay["speed"], lay["pressure"], lay["length"], lay["fmt"], extra))
    return data, conf


def distance(a, b):
    """Great circle distance in km on the sphere the model uses."""
    import math
    la, lb = math.radians(a["lat"]), math.radians(b["lat"])
    h = (math.sin((lb - la) / 2) ** 2 + math.cos(la) * math.cos(lb)
         * math.sin(math.radians(b["lon"] - a["lon"]) / 2) ** 2)
    return 2 * 6367.0 * math.asin(min(1.0, math.sqrt(h)))


def heading(a, b):
    """Direction of travel in degrees, from the mean of the two latitudes."""
    import math
    dx = (b["lon"] - a["lon"] + 180.0) % 360.0 - 180.0
    dy = b["lat"] - a["lat"]
    return math.degrees(math.atan2(dx * math.cos(math.radians((a["lat"] + b["lat"]) / 2)),
                                   dy)) % 360.0


__all__ = ["records", "layouts", "columns", "splits", "borderline", "write", "when", "season",
           "distance", "heading", "dec"]
