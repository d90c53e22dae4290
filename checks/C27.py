"""Configuration values mean the same thing wherever they come from."""
import builtins
import configparser
import os

from hypothesis import strategies as st

from vf import Property, check, Violation, scratch
from vf.gen import dec

TECHNIQUE = ("generated configuration files and sequences of reads, sets and resets "
             "against a model made of the documented defaults and the text of the file")
NOTE = ("options and kinds of the user guide plus options of the user's own; values on "
        "one line in ASCII")

prop = Property("C27", assumptions=[
    "each option appears once in a section and its value is on one line",
    "truth values are written True or False"])

# Option: (kind, default) from the user guide; no default where None.
DOC = {
    "Actions": {k: ("bool", "True") for k in (
        "DataProcess", "ExecuteStat", "ExecuteTrackGenerator", "ExecuteWindfield",
        "ExecuteHazard", "ExecuteEvaluate", "PlotData", "PlotHazard", "CreateDatabase",
        "DownloadData")},
    "Region": {"gridLimit": ("dict", None), "gridSpace": ("dict", "{'x':1.0,'y':1.0}"),
               "gridInc": ("dict", "{'x':1.0,'y':0.5}"), "LocalityID": ("int", None),
               "LocalityName": ("str", None)},
    "DataProcess": {"StartSeason": ("int", "1981"), "FilterSeasons": ("bool", "True"),
                    "Source": ("str", "IBTRACS"), "InputFile": ("str", None)},
    "StatInterface": {"kdeType": ("str", None), "kdeStep": ("float", "0.2"),
                      "minSamplesCell": ("int", "100")},
    "TrackGenerator": {"NumSimulations": ("int", "500"), "NumTimeSteps": ("int", "360"),
                       "TimeStep": ("float", "1.0"), "SeasonSeed": ("int", "1"),
                       "TrackSeed": ("int", "1"), "YearsPerSimulation": ("text int", None)},
    "WindfieldInterface": {"profileType": ("str", "holland"), "windFieldType": ("str", "kepert"),
                           "beta": ("float", "1.3"), "beta1": ("float", "1.3"),
                           "beta2": ("float", "1.3"), "thetaMax": ("float", "70.0"),
                           "Margin": ("float", "2"), "Resolution": ("float", "0.05"),
                           "Domain": ("str", "bounded"), "PlotOutput": ("bool", None),
                           "TrackPath": ("str", None)},
    "Hazard": {"Years": ("list", "2,5,10,20,25,50,100,200,250,500,1000"),
               "MinimumRecords": ("int", "50"), "CalculateCI": ("bool", "True"),
               "PercentileRange": ("int", "90"), "SampleSize": ("int", "50"),
               "PlotSpeedUnits": ("str", "mps"), "SmoothPlots": ("bool", "True"),
               "ExtremeValueDistribution": ("str", "GPD")},
    "RMW": {"GetRMWDistFromInputData": ("bool", "False"), "mean": ("float", None)},
    "Input": {"LocationFile": ("str", "input/stationlist.shp"), "LandMask": ("str", "input/landmask.nc"),
              "MSLPFile": ("str", "MSLP/slp.day.ltm.nc"), "MSLPGrid": ("list", None),
              "CoastlineGates": ("str", None), "Datasets": ("text list", "IBTRACS,LTMSLP")},
    "Output": {"Path": ("str", "output")},
    "Timeseries": {"Extract": ("bool", "False"), "StationID": ("str", None),
                   "LocationFile": ("str", None), "Windfields": ("bool", "False")},
    "Logging": {"LogFile": ("str", "main.log"), "LogLevel": ("str", "INFO"),
                "Verbose": ("bool", "False"), "ProgressBar": ("bool", "False"),
                "Datestamp": ("bool", "False")},
    "Process": {"DatFile": ("str", None), "ExcludePastProcessed": ("bool", None)},
    "TCRM": {"Columns": ("list", None), "FieldDelimiter": ("str", None),
             "NumberOfHeadingLines": ("int", None), "SpeedUnits": ("str", None)},
}
KINDS = ["str", "int", "float", "bool", "dict", "text int", "text list"]
DEFAULT_FOR = {"str": "none", "int": 7, "float": 0.25, "bool": True, "dict": {"a": 1}}

word = st.text("abcdefgXYZ0123456789_", min_size=1, max_size=8)
chunk = st.sampled_from(["%", "%Y-%m-%d", " ", " # ", " ;", " = ", "/", "\\", "=", ":", ";", "#", "'", '"', ",", "~", "$HOME", "${a}",
                         "%(path)s", "{", "]", "(", "..", "C:", "//", "\t"])


@st.composite
def text(draw):
    parts = [draw(word)]
    for _ in range(draw(st.integers(0, 4))):
        parts += [draw(chunk), draw(word)]
    return "".join(parts)


@st.composite
def value(draw, kind):
    kind = kind.replace("text ", "")
    if kind == "str":
        return draw(text())
    if kind == "int":
        return str(draw(st.integers(-10 ** 9, 10 ** 9)))
    if kind == "float":
        return draw(st.sampled_from(["%r", "%.3e", "%g"])) % draw(dec(-1000, 1000, 3))
    if kind == "bool":
        return draw(st.sampled_from(["True", "False"]))
    if kind == "list":
        return ",".join(draw(st.lists(word, min_size=1, max_size=6)))
    keys = draw(st.lists(word, min_size=1, max_size=4, unique=True))
    return repr({k: draw(dec(-180, 180, 2)) for k in keys})


def recase(draw, name):
    how = draw(st.integers(0, 3))
    return (name, name, name.lower(), name.upper())[how]


@st.composite
def options(draw, min_size=0):
    out = []
    sections = draw(st.lists(st.sampled_from(sorted(DOC) + ["MyModel", "Source2"]), min_size=max(1, min_size),
                             max_size=5, unique=True))
    for s in sections:
        names = draw(st.lists(st.sampled_from(sorted(DOC.get(s, {})) + ["ownOption", "x1"]), min_size=1,
                              max_size=5, unique=True))
        for n in names:
            kind = DOC.get(s, {}).get(n, (None,))[0] or draw(st.sampled_from(KINDS))
            out.append([s, recase(draw, n), kind, draw(value(kind)),
                        draw(st.sampled_from(["%s = %s", "%s=%s", "%s: %s", "%s   =   %s  "]))])
    return out


def write(path, opts, comments=False):
    last = None
    with open(path, "w") as f:
        for s, n, _, v, fmt in opts:
            if s != last:
                f.write("\n[%s]\n" % s)
                last = s
            if comments:
                f.write("# %s = commented\n; other\n" % n)
            f.write(fmt % (n, v) + "\n")


def typed(kind, text):
    if kind == "int":
        return int(text)
    if kind == "float":
        return float(text)
    if kind == "bool":
        return text == "True"
    if kind == "list":
        return text.split(",")
    if kind == "dict":
        import ast
        return ast.literal_eval(text)
    return text


def same(got, want):
    return type(got) is type(want) and got == want


def verify(config, model, before):
    """The configuration holds the values of `model` and otherwise those of `before`."""
    from Utilities.config import ConfigParser
    for c in (config, ConfigParser()):
        for s in DOC:
            for n, (kind, default) in DOC[s].items():
                k = (s, n.lower())
                if k in model or default is None:
                    continue
                check(c.has_option(s, n), "%s %s has no default" % (s, n))
                check(c.get(s, n) == default, "%s %s is %r, documented default %r" % (s, n, c.get(s, n), default))
        for (s, n), (kind, v) in model.items():
            check(c.has_option(s, n), "%s %s is lost" % (s, n))
            for name in (n, n.upper()):
                got = c.get(s, name)
                check(same(got, v), "%s %s is %r, written as %r" % (s, n, got, v))
            base = kind.replace("text ", "")
            if base == "int":
                check(same(c.getint(s, n), int(v)) and same(c.geteval(s, n), int(v)), "integer %r" % v)
            if base in ("int", "float"):
                check(same(c.getfloat(s, n), float(v)), "number %r" % v)
            if base == "bool":
                check(same(c.getboolean(s, n), v == "True"), "truth value %r" % v)
            if base == "dict":
                check(same(c.geteval(s, n), typed("dict", v)), "mapping %r" % v)
        for k, v in before.items():
            if k not in model:
                check(c.get(*k) == v, "%s %s changed from %r to %r" % (k + (v, c.get(*k))))
        for s in c.sections():
            items = c.items(s)
            check(len(items) == len(c.options(s)) and sorted(n for n, _ in items) == sorted(c.options(s)),
                  "listing of section %s" % s)
            for n, got in items:
                kind = {o.lower(): x[0] for o, x in DOC.get(s, {}).items()}.get(n)
                if kind:
                    want = typed(kind, c.get(s, n))
                    check(same(got, want), "%s %s listed as %r, its text means %r" % (s, n, got, want))
                elif (s, n) in model and s not in DOC:
                    check(same(got, c.get(s, n)), "%s %s listed as %r" % (s, n, got))


def snapshot(config):
    return {(s, n): config.get(s, n) for s in config.sections() for n in config.options(s)}


@st.composite
def read_case(draw):
    return {"opts": draw(options()), "comments": draw(st.booleans()), "via": draw(st.integers(0, 2))}


@prop.facet(read_case, quick=500, thorough=12000,
            rule="a configuration file; non-trivial when it sets a documented option")
def read(d, ctx):
    from Utilities import config as C
    opts = d["opts"]
    path = os.path.join(scratch(), "a file.ini")
    write(path, opts, d["comments"])
    C.reset()
    before = snapshot(C.ConfigParser())
    model = {(s, n.lower()): (k, v) for s, n, k, v, _ in opts}
    ctx.nontrivial(any(s in DOC for s, _ in model))
    ctx.klass(*sorted({k for k, _ in model.values()}))
    with open(path) as f:
        content = f.read()
    if d["via"] == 0:
        C.ConfigParser().read(path)
    # The older interface reads the file itself.
    for s, n, kind, v, _ in opts:
        base = kind.replace("text ", "")
        if base in DEFAULT_FOR:
            got = C.cnfGetIniValue(path, s, n, DEFAULT_FOR[base])
            check(same(got, typed(base, v)), "%s %s read as %r with default %r, written as %r" %
                  (s, n, got, DEFAULT_FOR[base], v))
            for empty in ("", 0, 0.0, False, {}):
                if type(empty) is type(DEFAULT_FOR[base]):
                    got = C.cnfGetIniValue(path, s, n, empty)
                    check(same(got, typed(base, v)), "%s %s read as %r with default %r, written as %r" %
                          (s, n, got, empty, v))
        if base == "str" and v.isidentifier() and not hasattr(builtins, v) and not hasattr(configparser, v):
            got = C.cnfGetIniValue(path, s, n)
            check(same(got, v), "%s %s read as %r without default, written as %r" % (s, n, got, v))
        if base in ("int", "float", "dict", "bool"):
            got = C.cnfGetIniValue(path, s, n)
            check(got == typed(base, v), "%s %s read as %r without default, written as %r" % (s, n, got, v))
        check(same(C.cnfGetIniValue(path, s, n, "text"), v), "text of %s %s" % (s, n))
        for dflt in ("d", 3, 2.5, False, {"q": 1}, None, 0, 0.0, "", True):
            check(same(C.cnfGetIniValue(path, s, n + "Absent", dflt), dflt), "default %r of an absent option" % (dflt,))
            check(same(C.cnfGetIniValue(path, s + "Absent", n, dflt), dflt), "default %r of an absent section" % (dflt,))
    verify(C.ConfigParser(), model, before)
    with open(path) as f:
        check(f.read() == content, "reading changes the file")
    check(os.listdir(os.path.dirname(path)) == ["a file.ini"], "reading leaves other files")


@st.composite
def history(draw):
    ops = []
    for _ in range(draw(st.integers(2, 8))):
        op = draw(st.sampled_from(["read", "read", "read", "none", "missing", "reset", "set", "set", "get", "drop"]))
        if op in ("read", "set"):
            ops.append([op, draw(options())])
        else:
            ops.append([op])
    return ops


@prop.facet(history, quick=300, thorough=8000,
            rule="a sequence of reads, sets and resets; non-trivial when a file is read and "
                 "another operation would change its values")
def sequence(ops, ctx):
    from Utilities import config as C
    C.reset()
    root = scratch()
    base = snapshot(C.ConfigParser())
    handle = C.ConfigParser()
    model, read = {}, False
    again = False
    for i, op in enumerate(ops):
        path = os.path.join(root, "c%d.ini" % i)
        ctx.klass(op[0])
        if op[0] == "read":
            write(path, op[1])
            C.ConfigParser().read(path)
            if read:
                again = True
            else:
                model.update({(s, n.lower()): (k, v) for s, n, k, v, _ in op[1]})
            read = True
        elif op[0] == "none":
            C.ConfigParser().read(None)
        elif op[0] == "missing":
            try:
                C.ConfigParser().read(path)
                check(read, "a configuration file that does not exist is read without complaint")
            except ValueError:
                check(not read, "a file that would be ignored is looked for")
        elif op[0] == "reset":
            C.reset()
            handle = C.ConfigParser()
            model, read = {}, False
        elif op[0] == "set":
            for s, n, kind, v, _ in op[1]:
                if not handle.has_section(s):
                    handle.add_section(s)
                value = v
                if kind == "list":
                    value = v.split(",") if s + n.lower() in ("Inputmslpgrid", "TCRMcolumns") else v
                handle.set(s, n, value)
                model[(s, n.lower())] = (kind, v)
        elif op[0] == "get":
            C.cnfGetIniValue(None, "Hazard", "Years", "x")
        elif op[0] == "drop":
            # Changing what was returned changes nothing in the configuration.
            g = handle.geteval("Region", "gridSpace") if ("Region", "gridspace") not in model else {}
            g["x"] = 999
            y = dict(handle.items("Hazard"))["years"]
            y.append("7")
        verify(handle, model, base)
        check(C.ConfigParser() is handle, "the configuration is not shared")
    ctx.nontrivial(again or any(o[0] == "set" for o in ops))


@prop.facet(options, quick=300, thorough=8000,
            rule="values set in the program, written to a file and read again; non-trivial "
                 "when a list or mapping is among them")
def write_and_reread(opts, ctx):
    from Utilities import config as C
    C.reset()
    c = C.ConfigParser()
    model = {}
    for s, n, kind, v, _ in opts:
        if not c.has_section(s):
            c.add_section(s)
        if kind == "list" and s + n.lower() in ("Inputmslpgrid", "TCRMcolumns"):
            c.set(s, n, v.split(","))
        else:
            c.set(s, n, v)
        model[(s, n.lower())] = (kind, v)
    ctx.nontrivial(any(k in ("list", "dict", "text list") for k, _ in model.values()))
    before = snapshot(c)
    verify(c, model, before)
    path = os.path.join(scratch(), "copy.ini")
    with open(path, "w") as f:
        c.write(f)
    C.reset()
    clean = snapshot(C.ConfigParser())
    C.ConfigParser().read(path)
    check(snapshot(C.ConfigParser()) == before, "values differ after being written and read again")
    verify(C.ConfigParser(), model, clean)
