"""Facets of a property, run under Hypothesis, with evidence and replay."""
import contextlib
import faulthandler
import hashlib
import json
import os
import pickle
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback
import zlib

REPO = os.path.realpath(os.environ.get("VERIF_REPO", "/repo"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"
try:
    SEED = int(os.environ.get("VERIF_SEED", "1"))
except ValueError:
    SEED = 1
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
_SCRATCH_ROOT = None


class Violation(Exception):
    """The property does not hold on this case."""

    def __init__(self, message, finding=None):
        Exception.__init__(self, message)
        self.finding = finding


class Skip(Exception):
    """The generated case is outside the property's scope."""


class CaseTimeout(BaseException):
    pass


def check(cond, message, finding=None):
    """Oracle assertion; `message` may be a callable evaluated on failure."""
    if not cond:
        raise Violation(message() if callable(message) else message, finding)


def close(a, b, message, rtol=1e-9, atol=0.0, finding=None):
    """Oracle assertion: arrays equal in shape and value (NaN equals NaN)."""
    import numpy as np
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        raise Violation("%s: shape %s, expected %s" % (message, a.shape, b.shape),
                        finding)
    bad = ~np.isclose(a, b, rtol=rtol, atol=atol, equal_nan=True)
    if bad.any():
        i = tuple(int(x[0]) for x in np.nonzero(bad)) if bad.ndim else ()
        raise Violation("%s: at %s got %r, expected %r (%d of %d differ)"
                        % (message, i, float(a[i]), float(b[i]),
                           int(bad.sum()), bad.size), finding)


@contextlib.contextmanager
def expect_raises(kinds, message):
    """Oracle: the block raises one of `kinds`."""
    try:
        yield
    except kinds:
        return
    raise Violation(message)


def np_seed(value):
    import numpy as np
    np.random.seed(int(value) % (2 ** 32))


def scratch(prefix="s"):
    """A fresh directory inside the run's scratch root."""
    return tempfile.mkdtemp(prefix=prefix, dir=_SCRATCH_ROOT)


def canon(case):
    return json.dumps(case, sort_keys=True, default=repr)


class Ctx:
    """What a facet function reports about its case."""

    def __init__(self):
        self.evaluations = 0
        self.hashes = set()
        self.classes = {}
        self.samples = []
        self.skipped = 0
        self.known = {}
        self.failure = None
        self._nontrivial = False
        self._case = None

    def nontrivial(self, flag=True):
        self._nontrivial = self._nontrivial or bool(flag)

    def klass(self, *names):
        for n in names:
            self.classes[n] = self.classes.get(n, 0) + 1


class Unfinished(Violation):
    """A case the code never came back from."""


class Facet:
    def __init__(self, name, func, strategy, quick, thorough, rule, variant,
                 budget, case_limit):
        self.name = name
        self.func = func
        self.strategy = strategy
        self.examples = {"quick": quick, "thorough": thorough}
        self.rule = rule
        self.variant = variant
        self.budget = budget
        self.case_limit = case_limit


class Property:
    def __init__(self, pid, level="exploration", assumptions=(), extensions=(),
                 preload=("numpy", "scipy.stats")):
        self.id = pid
        self.level = level
        self.assumptions = list(assumptions)
        self.extensions = list(extensions)
        self.preload = preload
        self.facets = []

    def facet(self, strategy, quick=200, thorough=None, rule="", name=None,
              variant="pure", budget=None, case_limit=150):
        """Register a facet: func(case, ctx) raises Violation on failure.

        `strategy` is a zero-argument callable returning a Hypothesis strategy
        of JSON-representable cases.
        """
        def wrap(func):
            variants = [variant] if isinstance(variant, str) else list(variant)
            for v in variants:
                n = name or func.__name__
                if len(variants) > 1:
                    n = n + "-" + v
                self.facets.append(Facet(
                    n, func, strategy, quick,
                    thorough if thorough is not None else quick * 15,
                    rule or (func.__doc__ or "").strip().split("\n")[0],
                    v, budget, case_limit))
            return func
        return wrap


# ---------------------------------------------------------------- variants

EXTS = {
    "Utilities._akima": "Utilities/akima.c",
    "Utilities._maputils": "Utilities/maputils.f90",
    "PressureInterface._pressureProfile": "PressureInterface/pressureProfile.f90",
    "wind._windmodels": "wind/windmodels.f90",
}


def set_variant(variant):
    """Choose compiled or Python kernels; call before importing the code."""
    if variant == "compiled":
        from . import ext
        for name in EXTS:
            ext.install(name)
    else:
        for name in EXTS:
            sys.modules[name] = None
    # No MPI unless a facet puts a stand-in in place.
    sys.modules["mpi4py"] = None


class remote:
    """Evaluate functions of a module in a forked process of another variant."""

    def __init__(self, variant, target):
        self.variant = variant
        self.target = target
        self.pid = None

    def __call__(self, *args, **kwargs):
        if self.pid is None:
            self._start()
        try:
            pickle.dump((args, kwargs), self.w)
            self.w.flush()
            status, value = pickle.load(self.r)
        except (EOFError, BrokenPipeError):
            self.pid = None
            raise Violation("%s variant crashed" % self.variant)
        if status == "ok":
            return value
        raise Violation("%s variant raised: %s" % (self.variant, value))

    def _start(self):
        r1, w1 = os.pipe()
        r2, w2 = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(w1)
            os.close(r2)
            rd = os.fdopen(r1, "rb")
            wr = os.fdopen(w2, "wb")
            try:
                signal.setitimer(signal.ITIMER_REAL, 0)
                for m in list(sys.modules):
                    f = getattr(sys.modules[m], "__file__", None)
                    if f and os.path.realpath(f).startswith(REPO + os.sep):
                        del sys.modules[m]
                set_variant(self.variant)
                while True:
                    try:
                        args, kwargs = pickle.load(rd)
                    except EOFError:
                        break
                    try:
                        out = ("ok", self.target(*args, **kwargs))
                    except BaseException:
                        out = ("error", traceback.format_exc())
                    pickle.dump(out, wr)
                    wr.flush()
            finally:
                os._exit(0)
        os.close(r1)
        os.close(w2)
        self.w = os.fdopen(w1, "wb")
        self.r = os.fdopen(r2, "rb")
        self.pid = pid


# ------------------------------------------------------------------ running

def repo_frame(exc):
    """True when the traceback of `exc` passes through the code under test."""
    tb = exc.__traceback__
    while tb is not None:
        fn = os.path.realpath(tb.tb_frame.f_code.co_filename)
        if fn.startswith(REPO + os.sep):
            return True
        tb = tb.tb_next
    return False


def unreadable(exc):
    """True when `exc` comes of looking into a result that lacks what it should hold.

    A missing name or an argument that is not accepted is a change of interface
    instead, which is for the check to follow and not a violation.
    """
    if isinstance(exc, TypeError):
        return "argument" not in str(exc)
    if isinstance(exc, OSError) and not isinstance(exc, FileNotFoundError):
        # Files of the wrong format; not a full disk or a lack of rights.
        return exc.errno is None or exc.errno < 0
    return isinstance(exc, (LookupError, ValueError, ArithmeticError, FileNotFoundError, EOFError,
                            struct.error, zlib.error))


def _describe(exc):
    if hasattr(exc, "__notes__"):
        exc.__notes__ = []
    lines = traceback.format_exception(type(exc), exc, exc.__traceback__)
    return "".join(lines[-6:]).strip()


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(facet, case, ctx, known):
    """Run one case; return normally or raise Violation / a harness error."""
    ctx.evaluations += 1
    ctx._nontrivial = False
    signal.signal(signal.SIGALRM, _alarm)
    signal.setitimer(signal.ITIMER_REAL, facet.case_limit)
    try:
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            facet.func(case, ctx)
    except Skip:
        ctx.skipped += 1
        return
    except Violation as exc:
        if exc.finding is not None and exc.finding in known:
            ctx.known[exc.finding] = ctx.known.get(exc.finding, 0) + 1
            return
        raise
    except CaseTimeout:
        raise Unfinished("did not finish within %s s" % facet.case_limit)
    except Exception as exc:
        if repo_frame(exc):
            raise Violation("raised on a valid input: " + _describe(exc)) from exc
        if unreadable(exc):
            raise Violation("the result is not of the expected form: " + _describe(exc)) from exc
        raise
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        if ctx._nontrivial:
            text = canon(case)
            ctx.hashes.add(hashlib.sha1(text.encode()).hexdigest()[:16])
            if len(ctx.samples) < 3 and len(text) < 3000:
                ctx.samples.append(case)


def _fewer_mutations(runner):
    """Spend half of the cases on fresh draws.

    Hypothesis follows each fresh draw with five variations of it, which leaves
    only a sixth of the cases independent of each other.
    """
    vary = runner.generate_mutations_from

    def generate_mutations_from(self, data):
        if self.random.random() < 0.2:
            vary(self, data)
    runner.generate_mutations_from = generate_mutations_from


def run_facet(prop, facet, known, trace):
    """Run a facet in this process; returns a result dict."""
    import hypothesis
    from hypothesis import given, settings, seed, HealthCheck, Phase
    import hypothesis.internal.conjecture.engine as engine
    engine.MAX_SHRINKING_SECONDS = 40
    _fewer_mutations(engine.ConjectureRunner)
    if facet.variant in ("pure", "compiled"):
        set_variant(facet.variant)
    ctx = Ctx()
    t0 = time.monotonic()
    budget = facet.budget or (45 if TIER == "quick" else 600)
    state = {"failed": None, "over": False, "hung": False}

    def body(case):
        if state["failed"] is None and time.monotonic() - t0 > budget:
            state["over"] = True
            return
        if state["hung"]:
            return      # no time to look for a smaller case
        if facet.variant == "compiled":
            with open(trace, "w") as f:
                f.write(canon(case))
        try:
            run_case(facet, case, ctx, known)
        except Violation as exc:
            state["hung"] = isinstance(exc, Unfinished)
            text = canon(case)
            best = state["failed"]
            if best is None or len(text) <= len(best[0]):
                state["failed"] = (text, case, str(exc))
            raise

    wrapped = settings(database=None, deadline=None, print_blob=False,
                       max_examples=facet.examples[TIER],
                       report_multiple_bugs=False,
                       phases=(Phase.generate, Phase.target, Phase.shrink),
                       suppress_health_check=list(HealthCheck))(
        seed((SEED << 32) ^ zlib.crc32((prop.id + facet.name).encode()))(
            given(facet.strategy())(body)))
    error = None
    try:
        wrapped()
    except BaseException as exc:
        if state["failed"] is None:
            error = _describe(exc)
    result = {
        "facet": facet.name, "rule": facet.rule, "evaluations": ctx.evaluations,
        "hashes": sorted(ctx.hashes), "classes": ctx.classes,
        "samples": ctx.samples, "skipped": ctx.skipped, "known": ctx.known,
        "budget_reached": state["over"], "wall_s": time.monotonic() - t0,
        "error": error, "violation": None,
    }
    if state["failed"] is not None:
        result["violation"] = {"case": state["failed"][1],
                               "message": state["failed"][2]}
    return result


def child(prop, facet, known, path):
    faulthandler.enable()
    try:
        result = run_facet(prop, facet, known, path + ".case")
    except BaseException:
        result = {"facet": facet.name, "error": traceback.format_exc()}
    with open(path + ".tmp", "w") as f:
        json.dump(result, f, default=repr)
    os.rename(path + ".tmp", path)
