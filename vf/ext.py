"""Build the four extension modules from the current sources, outside the repository."""
import glob
import hashlib
import importlib.util
import os
import shutil
import subprocess
import sys
import sysconfig

from .core import EXTS, REPO, VERIF

CACHE = os.path.join(VERIF, "build", "ext")


def _paths():
    import numpy
    import numpy.f2py
    f2py = os.path.join(os.path.dirname(numpy.f2py.__file__), "src")
    inc = ["-I" + sysconfig.get_path("include"), "-I" + numpy.get_include(),
           "-I" + os.path.join(numpy.get_include(), "numpy"), "-I" + f2py]
    return f2py, inc


def build(name):
    """Path of a shared object for `name`, keyed by the content of its source."""
    source = os.path.join(REPO, EXTS[name])
    with open(source, "rb") as f:
        key = hashlib.sha256(f.read()).hexdigest()[:24]
    module = name.rsplit(".", 1)[1]
    suffix = sysconfig.get_config_var("EXT_SUFFIX")
    target = os.path.join(CACHE, key, module + suffix)
    if os.path.exists(target):
        return target
    work = os.path.join(CACHE, "work-%s-%d" % (module, os.getpid()))
    shutil.rmtree(work, ignore_errors=True)
    os.makedirs(work)
    f2py, inc = _paths()
    cc = ["gcc", "-O2", "-g", "-fPIC", "-w", *inc, "-c"]
    fc = ["gfortran", "-O2", "-g", "-fPIC", "-c"]

    def run(*cmd):
        p = subprocess.run(cmd, cwd=work, stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True)
        if p.returncode:
            raise RuntimeError("build of %s failed: %s\n%s" % (name, cmd, p.stdout))

    try:
        local = os.path.join(work, os.path.basename(source))
        shutil.copyfile(source, local)
        if source.endswith(".c"):
            run(*cc, local, "-o", "source.o")
            linker = "gcc"
        else:
            run(sys.executable, "-m", "numpy.f2py", "--quiet", "-m", module, local)
            run(*fc, local, "-o", "source.o")
            for c in glob.glob(work + "/*.c") + [f2py + "/fortranobject.c"]:
                run(*cc, c, "-o", os.path.basename(c)[:-2] + ".o")
            for f in glob.glob(work + "/*-f2pywrappers*.f*"):
                run(*fc, f, "-o", os.path.basename(f).rsplit(".", 1)[0] + ".o")
            linker = "gfortran"
        run(linker, "-shared", *sorted(glob.glob(work + "/*.o")), "-o", "out.so")
        os.makedirs(os.path.dirname(target), exist_ok=True)
        os.rename(os.path.join(work, "out.so"), target)
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return target


def install(name):
    """Make `import name` give the freshly built extension."""
    path = build(name)
    spec = importlib.util.spec_from_file_location(name, path)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    sys.modules[name] = mod
    return mod


if __name__ == "__main__":
    for n in EXTS:
        print(build(n))
