"""Command line: python -m vf.run <property> [--replay FILE] [--facet NAME]"""
import importlib
import json
import os
import shutil
import sys
import tempfile
import time
import traceback

from . import core


def load_known(pid):
    """Listed findings of this property: {key: text}."""
    out = {}
    path = os.path.join(core.VERIF, "known_findings.txt")
    if os.path.exists(path):
        for line in open(path):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                rest = line.split(" ", 2)[2]
                key, text = rest.split(" ", 1)
                out[key.split("=", 1)[1]] = text
    return out


def preload(prop):
    import hypothesis.strategies  # noqa: F401
    for name in prop.preload:
        importlib.import_module(name)


def main(argv):
    pid = argv[0]
    replay = only = None
    rest = argv[1:]
    while rest:
        if rest[0] == "--replay":
            replay = os.path.abspath(rest[1])
        elif rest[0] == "--facet":
            only = rest[1]
        rest = rest[2:]
    t0 = time.monotonic()
    evidence = os.path.join(core.VERIF, "evidence")
    os.makedirs(os.path.join(evidence, "replay"), exist_ok=True)
    root = tempfile.mkdtemp(prefix="vf-%s-" % pid)
    core._SCRATCH_ROOT = root
    os.environ["MPLCONFIGDIR"] = os.path.join(root, "mpl")
    os.environ["HOME"] = root
    try:
        return run(pid, replay, only, t0, evidence, root)
    finally:
        shutil.rmtree(root, ignore_errors=True)


def run(pid, replay, only, t0, evidence, root):
    os.chdir(root)
    mod = importlib.import_module("checks." + pid)
    prop = mod.prop
    preload(prop)
    known = load_known(pid)
    if any(f.variant == "compiled" for f in prop.facets) or prop.extensions:
        from . import ext
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(4) as ex:
            list(ex.map(ext.build, core.EXTS))
    if replay:
        return run_replay(prop, replay, known)
    facets = [f for f in prop.facets if only is None or f.name.startswith(only)]
    results = fan_out(prop, facets, known, root)
    return report(prop, results, known, t0, evidence, only)


def run_replay(prop, replay, known):
    with open(replay) as f:
        rec = json.load(f)
    facet = [f for f in prop.facets if f.name == rec["facet"]][0]
    if facet.variant in ("pure", "compiled"):
        core.set_variant(facet.variant)
    try:
        core.run_case(facet, rec["case"], core.Ctx(), known)
    except core.Violation as exc:
        print("%s: %s" % (rec["facet"], exc))
        print("VIOLATION property=%s replay=%s" % (prop.id, replay))
        return 1
    print("%s %s: held" % (prop.id, facet.name))
    return 0


def fan_out(prop, facets, known, root):
    """Each facet in its own forked process, a few at a time."""
    width = int(os.environ.get("VERIF_JOBS", "4"))
    hard = 420 if core.TIER == "quick" else 3000
    pending = list(enumerate(facets))
    running = {}
    results = []
    again = set()
    while pending or running:
        while pending and len(running) < width:
            i, facet = pending.pop(0)
            path = os.path.join(root, "result-%d.json" % i)
            sys.stdout.flush()
            sys.stderr.flush()
            pid = os.fork()
            if pid == 0:
                code = 3
                try:
                    os.setpgid(0, 0)
                    fd = os.open(os.path.join(root, "out-%d.txt" % i),
                                 os.O_WRONLY | os.O_CREAT, 0o644)
                    os.dup2(fd, 1)
                    os.dup2(fd, 2)
                    core.child(prop, facet, known, path)
                    code = 0
                finally:
                    os._exit(code)
            running[pid] = (facet, path, time.monotonic(), i)
        done, status = os.waitpid(-1, os.WNOHANG)
        now = time.monotonic()
        for pid in list(running):
            facet, path, start, i = running[pid]
            if pid == done:
                del running[pid]
                if os.WIFSIGNALED(status) and i not in again and not os.path.exists(path + ".case"):
                    again.add(i)        # not on a recorded case: once more
                    pending.append((i, facet))
                else:
                    results.append(collect(facet, path, root, i, status))
            elif now - start > hard:
                import signal
                try:
                    os.killpg(pid, signal.SIGKILL)
                except ProcessLookupError:
                    pass
                os.waitpid(pid, 0)
                del running[pid]
                results.append({"facet": facet.name,
                                "error": "no result after %d s" % hard})
        if not done:
            time.sleep(0.02)
    order = {f.name: n for n, f in enumerate(facets)}
    results.sort(key=lambda r: order[r["facet"]])
    return results


def collect(facet, path, root, i, status):
    if os.path.exists(path):
        with open(path) as f:
            return json.load(f)
    out = os.path.join(root, "out-%d.txt" % i)
    tail = open(out, errors="replace").read()[-3000:] if os.path.exists(out) else ""
    if os.WIFSIGNALED(status) and os.path.exists(path + ".case"):
        # The compiled code brought the process down on the recorded case.
        with open(path + ".case") as f:
            case = json.load(f)
        return {"facet": facet.name, "rule": facet.rule, "evaluations": 1,
                "hashes": [], "classes": {}, "samples": [], "skipped": 0,
                "known": {}, "budget_reached": False, "wall_s": 0.0, "error": None,
                "violation": {"case": case, "message":
                              "process killed by signal %d\n%s"
                              % (os.WTERMSIG(status), tail[-800:])}}
    return {"facet": facet.name, "error": "facet process died\n" + tail}


def report(prop, results, known, t0, evidence, only):
    errors = [r for r in results if r.get("error")]
    bad = [r for r in results if r.get("violation")]
    good = [r for r in results if "evaluations" in r]
    distinct = set()
    samples = []
    for r in good:
        distinct.update(r["facet"] + h for h in r["hashes"])
        for s in r["samples"][:1]:
            samples.append({"facet": r["facet"], "case": s})
    ev = {
        "property": prop.id, "tier": core.TIER, "seed": core.SEED,
        "level": prop.level,
        "coverage": {
            "evaluations": sum(r["evaluations"] for r in good),
            "distinct_nontrivial": len(distinct),
            "rule": "; ".join("%s: %s" % (r["facet"], r["rule"]) for r in good),
            "samples": samples[:8],
            "facets": [{"facet": r["facet"], "cases": r["evaluations"],
                        "nontrivial_distinct": len(r["hashes"]),
                        "skipped": r["skipped"], "classes": r["classes"],
                        "stopped_by_time_budget": r["budget_reached"],
                        "seconds": round(r["wall_s"], 2)} for r in good],
        },
        "assumptions": prop.assumptions,
        "wall_s": round(time.monotonic() - t0, 2),
        "violations": len(bad),
    }
    if only is None:
        tmp = os.path.join(evidence, prop.id + ".json.tmp")
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=repr)
        os.rename(tmp, os.path.join(evidence, prop.id + ".json"))
    hits = {}
    for r in good:
        for k, n in r["known"].items():
            hits[k] = hits.get(k, 0) + n
    for key, text in known.items():
        print("KNOWN-FINDING: property=%s %s (seen in %d cases of this run)"
              % (prop.id, text, hits.get(key, 0)))
    for r in good:
        print("%s %-34s %6d cases %6d non-trivial %6.1f s%s" % (
            prop.id, r["facet"], r["evaluations"], len(r["hashes"]),
            r["wall_s"], "  (time budget)" if r["budget_reached"] else ""))
    for r in errors:
        print("ERROR in %s:\n%s" % (r["facet"], r["error"]))
    for r in bad:
        path = os.path.join(evidence, "replay", "%s-%s.json" % (prop.id, r["facet"]))
        with open(path, "w") as f:
            json.dump({"property": prop.id, "facet": r["facet"],
                       "case": r["violation"]["case"],
                       "message": r["violation"]["message"]}, f, indent=1,
                      default=repr)
        print("%s: %s" % (r["facet"], r["violation"]["message"][:1500]))
        print("VIOLATION property=%s replay=%s" % (prop.id, path))
    sys.stdout.flush()
    if bad:
        return 1
    return 2 if errors else 0


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
