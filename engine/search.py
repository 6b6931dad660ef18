"""Bounded concrete stand-in and counterexample replay: runs the real code (compiled from /repo on every run)
against independent oracles.  Never counted as proof."""
import ctypes
import json
import mmap
import os
import pickle
import random
import signal
import struct
import subprocess
import sys
import time
import traceback
from .irparse import REPO, scratch

NCFLAGS = None


def nc_flags():
    global NCFLAGS
    if NCFLAGS is None:
        c = subprocess.run(["nc-config", "--cflags"], capture_output=True, text=True).stdout.split()
        l = subprocess.run(["nc-config", "--libs"], capture_output=True, text=True).stdout.split()
        NCFLAGS = (c, l)
    return NCFLAGS


class BuildError(Exception):
    pass


LIBC = ["create_xgrid.c", "gradient_c2l.c", "interp.c", "mosaic_util.c", "mpp.c", "mpp_domain.c", "mpp_io.c",
        "read_mosaic.c", "tool_util.c", "affinity.c"]


def cc(out, srcs, shared=False, flags=(), libs=(), opt="-O1"):
    c, l = nc_flags()
    cmd = ["gcc", opt, "-g", "-w", "-DHAVE_CONFIG_H", "-I" + REPO + "/lib/libfrencutils", "-I" + REPO + "/src",
           "-I/verif/harness/inc", "-I/verif/harness"] + c + list(flags)
    if shared:
        cmd += ["-shared", "-fPIC"]
    cmd += ["-o", out] + [s if s.startswith("/") else os.path.join(REPO, s) for s in srcs] + list(libs) + l + ["-lm"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-2000:]))
    return out


def build_many(jobs):
    """jobs: list of (out, srcs, kwargs) built in parallel"""
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(8) as ex:
        fs = [ex.submit(cc, o, s, **k) for o, s, k in jobs]
        return [f.result() for f in fs]


_objs = {}


def obj(src, flags=(), opt="-O1"):
    key = (src, tuple(flags), opt)
    if key in _objs:
        return _objs[key]
    out = os.path.join(scratch(), "o%d_%s.o" % (len(_objs), os.path.basename(src)))
    _objs[key] = out
    c, l = nc_flags()
    inc = os.path.dirname(src if src.startswith("/") else os.path.join(REPO, src))
    cmd = ["gcc", opt, "-g", "-w", "-fPIC", "-c", "-DHAVE_CONFIG_H", "-I" + inc, "-I" + REPO + "/lib/libfrencutils",
           "-I" + REPO + "/src", "-I/verif/harness/inc"] + c + list(flags)
    cmd += ["-o", out, src if src.startswith("/") else os.path.join(REPO, src)]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-2000:]))
    return out


def objs(srcs, flags=(), opt="-O1"):
    from concurrent.futures import ThreadPoolExecutor

    with ThreadPoolExecutor(8) as ex:
        return list(ex.map(lambda s: obj(s, flags, opt), srcs))


def link(out, objects, shared=False, libs=()):
    c, l = nc_flags()
    out = os.path.join(scratch(), out)
    cmd = ["gcc", "-g"] + (["-shared"] if shared else []) + ["-o", out] + list(objects) + list(libs) + l + ["-lm"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode:
        raise BuildError("%s\n%s" % (" ".join(cmd), r.stderr[-2000:]))
    return out


FENCE = ("-include", "/verif/harness/fence.h")


def fenced(srcs, flags=()):
    """objects of the real sources whose heap blocks end at an inaccessible page"""
    return objs(srcs, tuple(flags) + FENCE) + objs(["/verif/harness/fence.c"])


def libobjs(flags=()):
    return objs(["lib/libfrencutils/" + f for f in LIBC], flags)


def tool(name, srcs, extra_lib=True):
    """builds one of the repository's C tools from the working tree"""
    o = objs(srcs)
    if extra_lib:
        o = o + libobjs() + objs(["src/version.c"])
    return link(name, o)


_lib = None


def frelib():
    """shared object with the whole of libfrencutils"""
    global _lib
    if _lib is None:
        p = link("libfre.so", libobjs(), shared=True)
        _lib = ctypes.CDLL(p)
    return _lib


class Search:
    """search context handed to property modules"""

    def __init__(self, prop, tier, seed, models=(), scale=1.0):
        self.prop, self.tier, self.seed, self.models = prop, tier, seed, list(models)
        self.failures = []  # dict(key, what, input)
        self.evals = 0
        self.parts = []
        self.samples = []
        self.scale = scale
        self.notes = []
        self.t0 = time.time()

    def secs(self, quick, thorough=None):
        return (quick if self.tier == "quick" else (thorough or quick * 6)) * self.scale

    def fail(self, key, what, inp=None, replay=None):
        self.failures.append({"key": key, "what": what, "input": inp, "replay": replay})

    def note_part(self, name, n, rule):
        self.parts.append({"part": name, "cases": n, "rule": rule})
        self.evals += n

    def parallel(self, name, gen, run, seconds, workers=8, first=(), rule="", maxcases=None, stop_on=3):
        """gen(rng, k)->case ; run(case)-> None (ok) | str (violation).  Child crashes are violations.
        `first`: cases every run tries first (directed)."""
        first = list(first)
        pipes = []
        t_end = time.time() + seconds
        for w in range(workers):
            shm = mmap.mmap(-1, 1 << 20)
            r, wfd = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    dn = os.open("/dev/null", os.O_WRONLY)
                    os.dup2(dn, 1)
                    os.dup2(dn, 2)
                    rng = random.Random("%s/%s/%d/%d" % (self.prop, name, self.seed, w))
                    n = 0
                    fails = []
                    k = 0
                    mine = first[w::workers]
                    while True:
                        if n < len(mine):
                            case = mine[n]
                        else:
                            if time.time() > t_end or (maxcases is not None and k >= maxcases // workers):
                                break
                            case = gen(rng, k)
                            k += 1
                        b = pickle.dumps((n, case))
                        if len(b) < (1 << 20) - 8:
                            shm[0:8] = struct.pack("<Q", len(b))
                            shm[8 : 8 + len(b)] = b
                        msg = run(case)
                        n += 1
                        if msg is not None:
                            fails.append((case, msg))
                            if len(fails) >= stop_on:
                                break
                        if n >= len(mine) and time.time() > t_end:
                            break
                    os.write(wfd, pickle.dumps(("done", n, fails))[:60000] if len(pickle.dumps(("done", n, fails))) < 60000
                             else pickle.dumps(("done", n, [(repr(c)[:3000], m) for c, m in fails])))
                    os._exit(0)
                except SystemExit:
                    os._exit(88)
                except BaseException:
                    try:
                        os.write(wfd, pickle.dumps(("exc", traceback.format_exc()[-3000:], None)))
                    except Exception:
                        pass
                    os._exit(99)
            os.close(wfd)
            pipes.append((pid, r, shm))
        total = 0
        for pid, r, shm in pipes:
            data = b""
            dead = False
            while True:
                # a worker stuck in the code under test is a violation (non-termination)
                import select

                left = t_end + 60 - time.time()
                rl, _, _ = select.select([r], [], [], max(0.5, left))
                if not rl:
                    os.kill(pid, signal.SIGKILL)
                    dead = True
                    break
                ch = os.read(r, 65536)
                if not ch:
                    break
                data += ch
            os.close(r)
            _, status = os.waitpid(pid, 0)
            res = None
            if data:
                try:
                    res = pickle.loads(data)
                except Exception:
                    res = None
            if res is not None and res[0] == "done":
                total += res[1]
                for case, msg in res[2]:
                    self.fail(name, msg, case)
            elif res is not None and res[0] == "exc":
                if not any(n.startswith("search part %s:" % name) for n in self.notes):
                    self.notes.append("search part %s: harness exception: %s" % (name, res[1]))
            else:
                ln = struct.unpack("<Q", shm[0:8])[0]
                case, n = None, 0
                if ln:
                    n, case = pickle.loads(shm[8 : 8 + ln])
                total += n
                if dead:
                    self.fail(name, "the code under test did not return (hang)", case)
                elif os.WIFSIGNALED(status):
                    self.fail(name, "the code under test crashed with signal %d" % os.WTERMSIG(status), case)
                else:
                    self.fail(name, "the code under test ended the process with exit status %d on a valid input"
                              % os.WEXITSTATUS(status), case)
        self.note_part(name, total, rule)
        return total


def jsonable(x):
    try:
        import numpy as np

        if isinstance(x, np.ndarray):
            return x.tolist()
        if isinstance(x, (np.integer,)):
            return int(x)
        if isinstance(x, (np.floating,)):
            return float(x)
    except ImportError:
        pass
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (int, float, str, bool)) or x is None:
        return x
    return repr(x)
