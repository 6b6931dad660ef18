"""C05: mppnccombine never destroys data it has not safely combined"""
import os
import subprocess
import numpy as np
import z3
from z3 import Implies, If, Or, Not
from .common import *
from . import c04
from .c04 import CB, CBSRC

ASSUMPTIONS = [
    "in estimate mode (-x, nothing is written) fewer than 256 records of one block fail",
    "contents of strings are not modelled: that the names passed to stat, process_file and unlink are the intended ones is covered by the stand-in",
    "stat, atoi and the NetCDF library may return anything; a NetCDF call that fails says so by returning -1",
]
TRUSTED = ["assumed contracts: NetCDF 2 interface, stat, unlink, sprintf, strlen, strcmp"]
GE, GC, GD = (("ghost_" + n, (), I64) for n in ("err", "created", "closed"))


def havoc_ret(c):
    return None


def p_main():
    def seterr(c, bad):
        c.set_ghost("err", If(bad, 1, c.ghost("err")))

    def c_file(c):
        a = c.args
        old = [c.at(a[n], None, I32) for n in (5, 7, 6)]
        for p in a[4:8]:
            c.havoc(p, I32)
        c.require("blocking factor", And(Or(dry(c), old[1] <= 100), Implies(old[0] != 1, old[1] >= 1), Or(a[8] == 0, old[0] != 1), a[8] >= 0))
        c.require("one record is one block", Implies(old[0] == 1, old[2] == 1))
        new = [c.at(a[n], None, I32) for n in (5, 6, 7)]
        c.assume(And(Implies(new[0] == 1, new[1] == 1), Implies(new[0] != 1, new[2] >= 1), Or(dry(c), new[2] <= 100), Implies(new[0] == 1, old[0] == 1)))
        r = fresh("process_file", z3.IntSort())
        c.assume(And(r >= 0, r <= 255))
        c.require("before the output is closed", c.ghost("closed") == 0)
        seterr(c, r != 0)
        return r

    def c_flush(c):
        r = fresh("flush", z3.IntSort())
        c.assume(And(r >= 0, r <= 1))
        seterr(c, r != 0)
        return r

    def c_sync(c):
        r = fresh("sync", z3.IntSort())
        seterr(c, r == -1)
        return r

    def c_close(c):
        r = fresh("close", z3.IntSort())
        seterr(c, r == -1)
        c.set_ghost("closed", iv(1))
        return r

    def c_create(c):
        r = fresh("create", z3.IntSort())
        c.set_ghost("created", If(r != -1, 1, c.ghost("created")))
        return r

    def c_unlink(c):
        p = c.args[0]
        if p.region is P.eng.frames[-1].allocas["outfilename"]:
            c.require("removes the output only if this run created it", c.ghost("created") == 1)
        else:
            c.require("inputs are removed only after the output was closed", c.ghost("closed") == 1)
            c.require("inputs are removed only if nothing failed", c.ghost("err") == 0)
            c.require("inputs are removed only on request", P.eng.load(c.st, Ptr(P.eng.frames[-1].allocas["removein"]), I8, chk=False) != 0)

    def c_open(c):
        return None
    nop = lambda c: None
    dry = lambda L: L.at(P.globalptr("mem_dry_run"), None, I32) != 0
    P = Proof(CB, "main", contracts={"process_file": c_file, "flush_decomp": c_flush, "ncsync": c_sync, "ncclose": c_close, "nc__create": c_create, "unlink": c_unlink,
                                     "ncopen": nop, "ncsetfill": nop, "stat": nop, "sprintf": nop, "strlen": nop, "atoi": nop, "print_version": nop, "usage": nop, "free": nop,
                                     "print_estimated_mem_footprint": nop, "check_mem_usage": nop, "strcmp": nop, "min": None}, bounds=False)
    P.eng.contracts.pop("min")
    for k in (GE, GC, GD):
        P.st0.mem[k] = iv(0)
    P.requires(P.a["argc"] >= 0)
    small = lambda L: [("flags", And(*[And(L[n] >= 0, L[n] <= 255) for n in ("verbose", "removein", "appendnc", "created", "infileerrors", "outfileerrors")]))]

    def inv(L):
        try:
            e = And(L["infileerrors"] == 0, L["outfileerrors"] == 0)
        except Exception:
            return []
        g = L.st.mem
        return [("flags", And(L["infileerrors"] >= 0, L["infileerrors"] <= 1, L["outfileerrors"] >= 0, L["outfileerrors"] <= 1, L["created"] >= 0, L["created"] <= 1)),
                ("errors are remembered", Implies(g[GE] != 0, Not(e))), ("created", Implies(L["created"] != 0, g[GC] == 1)),
                ("blocks", And(Or(dry(L), L["bf"] <= 100), Implies(L["nrecs"] != 1, L["bf"] >= 1), Implies(L["nrecs"] == 1, L["nblocks"] == 1)))] + (
                    [("block", And(L["block"] >= 0, Implies(L["nrecs"] == 1, L["block"] <= blockno(L))))] if blockno(L) >= 0 else [])

    def blockno(L):
        if (L.var("block").name, (), I32) not in L.entry_st.mem:
            return -1
        return 1 if z3.is_int_value(simp(L.entry("block"))) else 0

    def inv0(L):  # option loop
        g = L.st.mem
        return [("start", And(L["infileerrors"] == 0, L["outfileerrors"] == 0, L["created"] == 0, g[GE] == 0, g[GC] == 0, g[GD] == 0)), ("bf", And(Or(dry(L), L["bf"] <= 100), L["nrecs"] == 1, L["nblocks"] == 1))]

    def before(L):
        return inv(L) + [("open", L.st.mem[GD] == 0)]

    def after(L):
        return [("closed without errors", And(L.st.mem[GD] == 1, L.st.mem[GE] == 0, L["removein"] != 0))]
    P.loop(0, inv=inv0)
    P.loop_default(lambda L: after(L) if z3.is_int_value(simp(L.entry_st.mem[GD])) and simp(L.entry_st.mem[GD]).as_long() == 1 else before(L))
    P.run()
    P.ensures("success is reported only if nothing failed and the output was closed", Implies(P.ret == 0, And(P.final.mem[GE] == 0, P.final.mem[GD] == 1)))
    return P


def p_file():
    def ret(cond, post=None):
        def f(c):
            r = fresh("ret", z3.IntSort())
            c.set_ghost("err", If(cond(r), 1, c.ghost("err")))
            for n, ty in (post or {}).items():
                p = c.args[n]
                c.havoc(p, ty)
            return r
        return f
    bad = lambda r: r == -1
    nop = lambda c: None

    def c_vars(c):
        r = fresh("process_vars", z3.IntSort())
        c.assume(And(r >= 0, r <= 1))
        c.set_ghost("err", If(r != 0, 1, c.ghost("err")))
        old = [c.at(c.args[n], None, I32) for n in (3, 4, 5)]
        for n in (3, 4, 5):
            c.havoc(c.args[n], I32)
        new = [c.at(c.args[n], None, I32) for n in (3, 4, 5)]
        c.require("blocking factor", And(old[2] <= 100, Implies(old[0] != 1, old[2] >= 1)))
        c.require("one record is one block", Implies(old[0] == 1, old[1] == 1))
        c.assume(And(new[2] >= 1, new[2] <= 100, Implies(new[0] == 1, new[1] == 1), Implies(old[0] != 1, And(*[x == y for x, y in zip(old, new)]))))
        return r
    P = Proof(CB, "process_file", contracts={
        "ncopen": ret(bad), "ncinquire": ret(bad, {1: I32, 2: I32, 3: I32, 4: I32}), "ncdiminq": ret(bad), "ncvarinq": ret(bad), "process_vars": c_vars,
        "ncattcopy": ret(bad), "ncattget": nop, "ncdimid": nop, "nc_inq_format": ret(bad, {1: I32}), "ncclose": nop, "nc__create": ret(bad), "ncsetfill": nop, "ncdimdef": nop, "ncvardef": nop,
        "ncattname": nop, "ncattput": nop, "nc_def_var_deflate": nop, "usage": nop, "nc__enddef": nop, "check_mem_usage": nop, "strcmp": nop, "strlen": nop, "strcpy": nop, "free": nop}, bounds=False)
    P.st0.mem[GE] = iv(0)
    P.struct(P.a["ncoutfile"], "fileinfo")
    P.loop_default(lambda L: [("no error so far", And(L.st.mem[GE] == 0))])
    return P


def p_file_run():
    P = p_file()

    def inv(L):
        g = L.st.mem[GE]
        out = [("errors are remembered", Implies(g != 0, L["ncinfileerror"] != 0)), ("flag", And(L["ncinfileerror"] >= 0, L["ncinfileerror"] <= 100))]
        b = L.at(P.a["bf"], None, I32)
        if (L.var("r").name, (), I32) in L.entry_st.mem:  # the loop over records
            out.append(("count", And(L["ncinfileerror"] <= L["r"] - block * b, L["r"] - block * b < 100, b <= 100)))
        out.append(("bf", And(b <= 100, Implies(nr(L) != 1, b >= 1), Or(block == 0, nr(L) != 1), Implies(nr(L) == 1, And(nb(L) == 1, nr(P.pre) == 1)), Implies(Not(bf0 == b), block == 0))))
        if len(out) == 3:
            out.append(("none yet", L["ncinfileerror"] == 0))
        return out
    bf0, block = P.pre.at(P.a["bf"], None, I32), P.a["block"]
    nr = lambda L: L.at(P.a["nrecs"], None, I32)
    nb = lambda L: L.at(P.a["nblocks"], None, I32)
    gp = P.globalptr("mem_dry_run")
    P.eng.initial[(gp.region.name, (), gp.region.ety)] = iv(0)
    P.requires(bf0 <= 100, Implies(nr(P.pre) != 1, bf0 >= 1), block >= 0, Or(block == 0, nr(P.pre) != 1), Implies(nr(P.pre) == 1, nb(P.pre) == 1))
    P.loop_default(inv)
    P.run()
    P.ensures("an input that could not be read completely is reported", Implies(P.ret == 0, P.final.mem[GE] == 0))
    P.ensures("one record is one block; the blocking factor stays in range", And(Implies(nr(P.post) == 1, nb(P.post) == 1), Implies(nr(P.post) != 1, P.post.at(P.a["bf"], None, I32) >= 1),
                                                                             Implies(nr(P.post) == 1, nr(P.pre) == 1), P.post.at(P.a["bf"], None, I32) <= 100))
    P.ensures("fits the caller's flag", And(P.ret >= 0, P.ret <= 100))
    return P


def p_vars_err():
    def io(c):
        r = fresh("ret", z3.IntSort())
        c.set_ghost("err", If(r == -1, 1, c.ghost("err")))
        return r
    nop = lambda c: None
    P = Proof(CB, "process_vars", contracts={"ncvarget": io, "ncvarput": io, "nctypelen": nop, "ncdimid": nop, "free": nop}, bounds=False)
    for x in ("ncinfile", "ncoutfile"):
        P.struct(P.a[x], "fileinfo")
    P.st0.mem[GE] = iv(0)
    vb = P.pre.at(P.globalptr("varbuf"), None, PTR)
    vb.region.nullfn = lambda: z3.BoolVal(False)
    P.eng.punfresh = True
    bf, nrecs = (P.pre.at(P.a[n], None, I32) for n in ("bf", "nrecs"))
    dry = P.pre.at(P.globalptr("mem_dry_run"), None, I32) != 0
    nbl = P.pre.at(P.a["nblocks"], None, I32)
    P.requires(Or(dry, bf <= 100), Implies(nrecs != 1, bf >= 1), Implies(nrecs == 1, nbl == 1))
    P.loop_default(lambda L: [("no error so far", L.st.mem[GE] == 0), ("counts", cnt(L))])
    def cnt(L):
        b, n, k = (L.at(P.a[x], None, I32) for x in ("bf", "nrecs", "nblocks"))
        return And(b >= 1, Or(dry, b <= 100), Implies(n == 1, k == 1), Implies(nrecs != 1, And(b == bf, n == nrecs, k == nbl)))
    P.run()
    P.ensures("counts are set once", cnt(P.post))
    P.ensures("a failed read or write is reported", Implies(P.ret == 0, P.final.mem[GE] == 0))
    P.ensures("returns 0 or 1", And(P.ret >= 0, P.ret <= 1))
    return P


def p_flush_err():
    def io(c):
        r = fresh("ret", z3.IntSort())
        c.set_ghost("err", If(r == -1, 1, c.ghost("err")))
        return r
    P = Proof(CB, "flush_decomp", contracts={"ncvarput": io}, bounds=False)
    P.struct(P.a["ncoutfile"], "fileinfo")
    P.st0.mem[GE] = iv(0)
    P.requires(P.a["bf"] >= 1)
    P.loop_default(lambda L: [("no error so far", L.st.mem[GE] == 0)])
    P.run()
    P.ensures("a failed write is reported", Implies(P.ret == 0, P.final.mem[GE] == 0))
    P.ensures("returns 0 or 1", And(P.ret >= 0, P.ret <= 1))
    return P


def proofs(tier):
    return [("main", p_main), ("process_file", p_file_run), ("flush_decomp errors", p_flush_err), ("process_vars errors", p_vars_err)]


def gen(r, k):
    c = c04.gen_case(r, k)
    c["drop"] = False
    c["scen"] = r.choice(["ok", "ok", "exists", "missing", "missing-force", "corrupt", "records", "fault-put", "fault-get", "fault-close", "none", "dry", "many", "many-get", "append-missing"])
    c["remove"] = r.random() < 0.7
    c["at"] = r.randrange(1000)
    c["extra"] = r.random() < 0.6
    c["fmt"] = None
    c["nrec"] = max(1, c["nrec"])
    if c["scen"][:4] == "many":
        c["nrec"] = r.choice([256, 512])
        c["k"] = r.choice([1, None]) if c["scen"] == "many" else r.choice([1, 256, 512])
        c["dims"] = [q for q in c["dims"] if q[0] != "time"] + [["time", None, "o", None]]
        c["vars"] = [["v0", "h", ["time", "x0"], False]]
        c["coordrec"] = False
        c["coordlast"] = False
    return c


def snap(d):
    return {f: open(os.path.join(d, f), "rb").read() for f in sorted(os.listdir(d))}


def run(c, exe, base):
    d = c04.fresh_dir(base)
    np_ = c["nx"] * c["ny"]
    sc = c["scen"]
    ln, allv, files = c04.write_pieces(c, d)
    env = dict(os.environ)
    cmd = c04.command(c, exe, files)
    if c["remove"]:
        cmd.insert(1, "-r")
    if c["extra"]:  # files that are not part of the set
        for n in ("out.nc.%0*d" % (c["width"], c["start"] + np_), "out.nc.%0*d" % (c["width"], c["start"] + np_ + 1), "other.nc", "out.nc.0000x", "out.nc."):
            if n not in files:
                open(os.path.join(d, n), "wb").write(b"keep me")
    # a write failure must hit at least one call
    dec = {q[0] for q in c["dims"] if q[2] != "o"}
    expect_fail = True
    p = 0
    if sc == "ok":
        expect_fail = False
    elif sc == "exists":
        open(os.path.join(d, "out.nc"), "wb").write(b"precious")
    elif sc in ("missing", "missing-force", "append-missing"):
        if np_ < 2:
            return None
        p = 1 + c["at"] % (np_ - 1)
        if c["mode"] == "list":
            p = c["order"][p]
        os.unlink(os.path.join(d, files[p]))
        if sc == "missing-force":
            cmd.insert(1, "-f")
        if sc == "append-missing":
            open(os.path.join(d, "out.nc"), "wb").write(open(os.path.join(d, files[0 if p else 1]), "rb").read())
            cmd.insert(1, "-a")
    elif sc == "corrupt":
        p = c["at"] % np_
        f = os.path.join(d, files[p])
        b = open(f, "rb").read()
        open(f, "wb").write(b"garbage" if c["at"] % 2 else b"XDF" + b[3:])
    elif sc == "records":
        if np_ < 2 or not any(q[0] == "time" for q in c["dims"]):
            return None
        c2 = dict(c, nrec=c["nrec"] + 1 + c["at"] % 3)
        p = c["at"] % np_
        keep = {f: open(os.path.join(d, f), "rb").read() for f in files}
        c04.write_pieces(c2, d)
        for n, f in enumerate(files):
            if n != p:
                open(os.path.join(d, f), "wb").write(keep[f])
    elif sc == "fault-put":
        env["PUT_FROM"] = "0"
        env["PUT_TO"] = str(1 + c["at"] % 2)
    elif sc == "fault-get":
        env["GET_FROM"] = str(c["at"] % np_)
        env["GET_TO"] = str(c["at"] % np_ + 1)
    elif sc == "fault-close":
        env["CLOSE_FAIL"] = "0"
    elif sc == "many":
        env["PUT_FROM"] = "0" if c["at"] % 2 else "2"
    elif sc == "many-get":  # every read of the record variable fails
        env["GET_FROM"] = str([v[0] for v in allv].index("v0") if c["at"] % 3 else 0)
    elif sc == "none":
        if c["mode"] == "list":
            return None
        for f in files:
            os.unlink(os.path.join(d, f))
    elif sc == "dry":
        cmd.insert(1, "-x")
        expect_fail = False
        if c["at"] % 2:
            open(os.path.join(d, "out.nc"), "wb").write(b"precious")
            if c["at"] % 4 == 1 and np_ > 1:
                expect_fail = None
                p = 1 + c["at"] % (np_ - 1)
                os.unlink(os.path.join(d, files[p]))
    if c["extra"] and sc == "none":
        for n in os.listdir(d):
            os.unlink(os.path.join(d, n))
    before = snap(d)
    r = subprocess.run(cmd, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120, env=env)
    after = snap(d)
    desc = "scenario %s(%d) extra files %s fault %s: %s" % (sc, c["at"], c["extra"], {k: env[k] for k in env if k.split("_")[0] in ("PUT", "GET", "CLOSE")}, c04.describe(c, cmd))
    if r.returncode < 0:
        return "mppnccombine crashed with signal %d: %s" % (-r.returncode, desc)
    if expect_fail is not None and (r.returncode != 0) != expect_fail:
        return "exit status %d: %s" % (r.returncode, desc)
    gone = set(before) - set(after)
    allowed = set(files) if (sc == "ok" and c["remove"]) else set()
    if gone != allowed and not (sc == "ok" and gone == allowed):
        return "files removed: %s, expected %s: %s" % (sorted(gone), sorted(allowed), desc)
    for f in before:
        if f in after and after[f] != before[f] and not (sc == "append-missing" and f == "out.nc"):
            return "file %s was modified: %s" % (f, desc)
    new = set(after) - set(before)
    if sc in ("missing", "none", "exists", "dry", "append-missing") and new:
        return "files %s left behind: %s" % (sorted(new), desc)
    if new - {"out.nc"}:
        return "unexpected files %s: %s" % (sorted(new), desc)
    if sc == "ok":
        if new != {"out.nc"}:
            return "no output: %s" % desc
        try:
            return c04.compare(c, d, ln, allv, desc)
        except Exception as e:
            return "output unreadable (%r): %s" % (e, desc)
    return None


def search(S):
    from engine.search import link, fenced, objs
    from engine.irparse import scratch
    exe = link("mppnccombine_f", fenced([CB], ("-Dncvarput=h_ncvarput", "-Dncvarget=h_ncvarget", "-Dncclose=h_ncclose")) +
               objs(["/verif/harness/combine_fault.c", "/verif/harness/version_stub.c"]))
    S.parallel("mppnccombine files", gen, lambda c: run(c, exe, scratch()), S.secs(35, 300),
               rule="random sets of pieces; existing output, missing, corrupt and inconsistent inputs, failing reads, writes and closes (also 256 of them), append and estimate mode; directory compared before and after")
    S.samples = [{"scenario": "missing", "pieces": 4, "options": "-r"}]
