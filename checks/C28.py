"""Inputs are reprocessed exactly when they have changed."""
import hashlib
import importlib
import os
import time

from hypothesis import strategies as st

from vf import Property, check, Violation, scratch

TECHNIQUE = ("generated histories of writing, recording, changing, moving and reloading files "
             "against a model ledger kept by the check")
NOTE = ("up to 14 steps over 4 files in 2 directories; names do not contain the field "
        "separator of the ledger")

prop = Property("C28", assumptions=[
    "file names hold no '|' and no line break, and archive names do not clash",
    "dates are compared to the second, as they are recorded"])

NAMES = st.sampled_from(["a.txt", "b.csv", "windfield.001-00002.nc", "no extension", "tracks 1.csv", "é-ü.dat",
                         "100%.txt", "a.TXT", "x,y.csv", "a", ".hidden", "a.txt.bak", "'q'.txt", "a=b;c.txt"])
CONTENT = st.sampled_from(["", "x", "x\n", "y", "1,2,3\n4,5,6\n", "\r\n", "long" * 30000])


@st.composite
def history(draw):
    files = draw(st.lists(st.tuples(st.integers(0, 1), NAMES), min_size=1, max_size=4, unique=True))
    start = [draw(CONTENT) for _ in files]
    if draw(st.integers(0, 5)) == 0:
        # Two files that differ only in the case of their names.
        files, start = [(0, "a.txt"), (0, "a.TXT"), (1, "a.txt")], [start[0]] * 3
    n = len(files)
    ops = []
    for k in range(draw(st.integers(5, 14))):
        op = "record" if k == 0 else draw(st.sampled_from(["record", "reload", "write", "touch", "record", "reload", "write", "touch", "archive", "move",
                                   "unlink", "delete ledger", "new ledger", "restart empty", "no ledger"]))
        i = 0 if k == 0 else draw(st.integers(0, n - 1))
        ops.append([op, i, draw(CONTENT), draw(st.integers(0, 10 ** 9)), draw(st.booleans()),
                    draw(st.sampled_from(["%Y%m%d%H%M", "%Y", "%Y%m%d%H%M%S"]))])
    return {"files": [list(f) for f in files], "start": start, "ops": ops}


def md5(text):
    return hashlib.md5(text.encode()).hexdigest()


@prop.facet(history, quick=1500, thorough=30000,
            rule="a history of operations on files and ledger; non-trivial when a recorded "
                 "file is later changed or the ledger reloaded")
def ledger(d, ctx):
    from Utilities import process as P
    from Utilities.files import flGetStat, flModDate, flSize
    P = importlib.reload(P)
    root = scratch()
    clock = [1.0e9]
    content, stamp, paths = {}, {}, []

    def write(i, text, when=None):
        clock[0] += 3600 if when is None else 0
        with open(paths[i], "w", newline="") as f:
            f.write(text)
        t = clock[0] if when is None else when
        os.utime(paths[i], (t, t))
        content[i], stamp[i] = text, t

    for k, (dn, name) in enumerate(d["files"]):
        p = os.path.join(root, "dir%d" % dn)
        os.makedirs(p, exist_ok=True)
        paths.append(os.path.join(p, name))
        write(k, d["start"][k])
    archived = {}
    disk = {}       # ledger path -> {file: (md5, date)}
    memory = {}     # what the running program knows
    dat = os.path.join(root, "ledger.dat")
    check(P.pGetProcessedFiles(dat) == 0, "a ledger that does not exist is reported as read")
    disk[dat] = None
    current = dat
    nontrivial = False

    for n, (op, i, text, when, flag, fmt) in enumerate(d["ops"]):
        ctx.klass(op)
        path = paths[i]
        alive = i in content
        if op == "record" and alive:
            ok = P.pWriteProcessedFile(path)
            check(bool(ok) == (current is not None), "recording reported as %r" % ok)
            if current is not None:
                memory[path] = (md5(content[i]), time.ctime(stamp[i]))
                disk[current] = dict(disk[current] or {})
                disk[current][path] = memory[path]
        elif op == "write" and (alive or flag):
            nontrivial |= path in memory
            write(i, text)
        elif op == "touch" and alive:
            nontrivial |= path in memory
            write(i, content[i], when)
        elif op == "unlink" and alive:
            os.unlink(path)
            del content[i]
        elif op == "reload" and current is not None:
            nontrivial |= bool(memory)
            P = importlib.reload(P)
            ok = P.pGetProcessedFiles(current)
            check(bool(ok) == (disk[current] is not None), "reading the ledger reported as %r" % ok)
            memory = dict(disk[current] or {})
        elif op == "restart empty":
            P = importlib.reload(P)
            check(not P.pGetProcessedFiles(None), "no ledger named, reported as read")
            memory, current = {}, None
        elif op == "no ledger" and current is None:
            check(not P.pDeleteDatFile(), "a ledger was reported deleted though none is in use")
        elif op == "new ledger":
            current = os.path.join(root, "ledger%d.dat" % n)
            check(not P.pGetProcessedFiles(current), "a ledger that does not exist is reported as read")
            disk[current] = None
        elif op == "delete ledger" and current is not None:
            had = disk[current] is not None
            ok = P.pDeleteDatFile()
            check(bool(ok) == had, "deleting the ledger reported as %r" % ok)
            check(not os.path.exists(current), "the ledger remains")
            disk[current] = None
        elif op == "move" and alive:
            dest = os.path.join(root, "moved%d" % n)
            if flag:
                check(P.pMoveFile(path, os.path.join(root, "absent", "x")) == 0, "a failed move reported as done")
            else:
                check(P.pMoveFile(path, dest) == 1, "a move reported as failed")
                archived[dest] = content.pop(i)
        elif op == "archive" and alive:
            where = os.path.join(root, "arch%d" % n, "deep")
            check(P.pArchiveDir(where) == where and P.pArchiveDir() == where and os.path.isdir(where),
                  "archive directory")
            check(P.pArchiveTimestamp(flag) == flag and P.pArchiveTimestamp() == flag, "archive timestamp flag")
            check(P.pArchiveDateFormat(fmt) == fmt and P.pArchiveDateFormat() == fmt, "archive date format")
            base, ext = os.path.splitext(os.path.basename(path))
            check(P.pArchiveFile(path) == 1, "archiving reported as failed")
            got = os.listdir(where)
            check(len(got) == 1, "archive directory holds %r" % (got,))
            if ext:
                want = base + ("." + time.strftime(fmt, time.gmtime(stamp[i])) if flag else "") + ext
                check(got[0] == want, "archived as %r, expected %r" % (got[0], want))
            archived[os.path.join(where, got[0])] = content.pop(i)

        # Files on disk are exactly those of the model.
        for k, p in enumerate(paths):
            check(os.path.exists(p) == (k in content), "%s %s after %s" %
                  (p, "is missing" if k in content else "is still there", op))
        for p, text in list(archived.items()) + [(paths[k], content[k]) for k in content]:
            with open(p, newline="") as f:
                check(f.read() == text, "content of %s changed by %s" % (p, op))
        # And so are the answers.
        for k, p in enumerate(paths):
            if k not in content:
                continue
            directory, name, digest, date = flGetStat(p)
            check(os.path.join(directory, name) == p and digest == md5(content[k]) and
                  date == time.ctime(stamp[k]), "statistics of %s" % p)
            check(flSize(p) == len(content[k].encode()), "size")
            check(flModDate(p) == time.strftime("%Y-%m-%d %H:%M:%S", time.gmtime(stamp[k])), "date")
            entry = memory.get(p, (None, None))
            for what, value, recorded in (("md5sum", digest, entry[0]), ("moddate", date, entry[1])):
                got = P.pAlreadyProcessed(directory, name, what, value)
                check(got == (recorded == value), "%s after %s: %s, recorded %s is %r and present %r" %
                      (p, op, "reported processed" if got else "reported not processed", what, recorded, value))
                check((P.pGetProcessedEntry(directory, name, what) or None) == recorded, "recorded %s" % what)
            check(not P.pAlreadyProcessed(directory, name + ".other", "md5sum", digest) and
                  not P.pAlreadyProcessed(directory + "/sub", name, "md5sum", digest), "an unrecorded file is processed")
        for path_, rows in disk.items():
            check(os.path.exists(path_) == (rows is not None), "ledger file %s" % path_)
    ctx.nontrivial(nontrivial)


@st.composite
def chunked(draw):
    return {"size": draw(st.integers(0, 5000)), "seed": draw(st.integers(0, 255)),
            "chunk": draw(st.one_of(st.integers(1, 300), st.sampled_from([4096, 65536]))),
            "flip": draw(st.integers(0, 4999))}


@prop.facet(chunked, quick=300, thorough=5000,
            rule="a file of bytes read in chunks; non-trivial when it takes several chunks")
def content(d, ctx):
    from Utilities.files import flGetStat
    data = bytearray((d["seed"] * (k + 7) + k // 3) % 256 for k in range(d["size"]))
    ctx.nontrivial(d["size"] > d["chunk"])
    path = os.path.join(scratch(), "f.bin")
    with open(path, "wb") as f:
        f.write(data)
    before = flGetStat(path, d["chunk"])[2]
    check(before == hashlib.md5(data).hexdigest(), "checksum in chunks of %d" % d["chunk"])
    if data:
        data[d["flip"] % len(data)] ^= 1
        with open(path, "wb") as f:
            f.write(data)
        check(flGetStat(path)[2] != before, "a changed byte goes unnoticed")
    for bad in (os.path.join(os.path.dirname(path), "absent"),):
        try:
            flGetStat(bad)
        except IOError:
            continue
        raise Violation("statistics of a missing file")
