"""C09: the NetCDF layer passes data, names and errors through unchanged"""
import os
import z3
from z3 import Implies, If, Or, Not
from .common import *
from .c08 import same, stop, room
from engine.sym import AttachError, NULL, Alt

IO = "lib/libfrencutils/mpp_io.c"
ASSUMPTIONS = ["names are shorter than the buffers of mpp_io.c (file names 251, variable names 127 characters) and error messages fit their buffers",
               "equal names mean the same variable of a file while the file is open"]
TRUSTED = ["assumed contracts: NetCDF, strcmp, strcpy, strcat, strstr, strlen, sprintf, getenv, atoi; mpp_error does not return"]
R, Z = z3.RealSort(), z3.IntSort()
NC_GLOBAL = -1


class Out:
    """the call stores this value through the pointer"""

    def __init__(self, ty, v):
        self.ty, self.v = ty, v


class Any:
    pass


ANY = Any()


class Env:
    def file(self, fid):
        """(ncid, nvar, action, status) of an entry, initially"""
        return {n: self.fld(self.P.pre, fid, n) for n in ("ncid", "nvar", "action", "status")}

    def fp(self, fid, name):
        P = self.P
        fl = P.mod.fields["struct.FileType"]
        return Ptr(self.files.region, ("a", ("f", fl.index(name))), (iv(0), fid))

    def fld(self, V, fid, name):
        return V.at(self.fp(fid, name), None, I32)

    def vp(self, fid, vid, name):
        P = self.P
        fl = P.mod.fields["struct.VarType"]
        return Ptr(self.vreg, (("f", fl.index(name)),), (iv(0), fid, vid))

    def var(self, V, fid, vid, name):
        return V.at(self.vp(fid, vid, name), None, I32)


def status(c, opt=False):
    r = fresh("status", Z)
    if not opt:
        c.set_ghost("err", If(r != 0, 1, c.ghost("err")))
    return r


def build(func, spec, **kw):
    """spec(E) -> dict(calls={nc function: [expected arguments]}, opt=[calls whose failure is an answer],
    ret=term, refuse=condition under which the program may end, once=[calls, exactly one of which is made])"""
    def b():
        E = Env()
        S = {}

        def ncall(nm):
            def f(c):
                exp = S["calls"].get(nm)
                if exp is None:
                    c.require("a call this function makes", z3.BoolVal(False))
                    return status(c)
                if callable(exp):
                    exp = exp(c)
                if S.get("when", {}).get(nm) is not None:
                    c.require("only when it applies", S["when"][nm])
                r = status(c, nm in S.get("opt", ()))
                for k, (x, e) in enumerate(zip(c.args, exp)):
                    if isinstance(e, Out):
                        c.set(x, e.ty, e.v)
                    elif isinstance(e, Ptr):
                        c.require("argument %d is the caller's" % (k + 1), same(x, e))
                    elif isinstance(e, str):
                        c.require("argument %d is \"%s\"" % (k + 1, e), z3.BoolVal(c.eng.cstr(x) == e))
                    elif e is ANY:
                        pass
                    else:
                        c.require("argument %d" % (k + 1), x == e)
                c.set_ghost("n_" + nm, c.ghost("n_" + nm) + 1)
                if S.get("after", {}).get(nm):
                    S["after"][nm](c, r)
                if nm in S.get("ok", ()):
                    c.set_ghost("ok_" + nm, If(r == 0, 1, 0))
                return r
            return f

        def neterr(c):
            c.require("a call has failed", c.ghost("err") == 1)
            c.noreturn = True

        def mpperr(c):
            c.require("only for invalid input", S["refuse"] if S.get("refuse") is not None else z3.BoolVal(False))
            c.noreturn = True
        mod = Proof(IO, func).mod
        names = [d for d in mod.decls if d.startswith("nc_")]
        cts = {n: ncall(n) for n in names}
        cts.update({"netcdf_error": neterr, "mpp_error": mpperr, "sprintf": lambda c: None, "printf": lambda c: None, "mpp_pe": lambda c: E.PE, "mpp_root_pe": lambda c: E.ROOT,
                    "strlen": lambda c: E.slen(c.args[0])})
        cts.update(kw.get("contracts", lambda E: {})(E))
        P = E.P = Proof(IO, func, contracts=cts)
        E.PE, E.ROOT = z3.Ints("pe root_pe")
        sl = z3.Function("string_length", Z, Z)
        E.strs = {}

        def slen(p):
            if isinstance(p, Alt):
                E.lenof = (p, fresh("strlen", Z))
                return E.lenof[1]
            lit = P.eng.cstr(p)
            if lit is not None:
                return iv(len(lit))
            k = E.strs.setdefault(str(P.eng.strkey(p)), len(E.strs))
            P.eng.facts.append(sl(iv(k)) >= 0)
            return sl(iv(k))
        E.slen = slen
        E.files = P.globalptr("files")
        E.N = P.pre.at(P.globalptr("nfiles"), None, I32)
        v = P.pre.at(Ptr(E.files.region, ("a", ("f", P.mod.fields["struct.FileType"].index("var"))), (iv(0), iv(0))), None, PTR)
        E.vreg = v.region
        E.vreg.length = lambda *pre: iv(1024)
        P.requires(0 <= E.N, E.N <= 200)
        k = z3.Int("k")
        nv = E.fld(P.pre, k, "nvar")
        P.requires(forall([k], Implies(And(0 <= k, k < 200), And(nv >= 0, nv <= 1024)), [nv]))
        for g in ["err"] + ["n_" + n for n in names] + ["ok_" + n for n in names]:
            P.st0.mem[("ghost_" + g, (), I64)] = iv(0)
        a = E.a = P.a
        if "fid" in a:
            E.NC = E.fld(P.pre, a["fid"], "ncid")
            E.NVAR = E.fld(P.pre, a["fid"], "nvar")
            E.okf = And(0 <= a["fid"], a["fid"] < E.N)
            E.ok = E.okf
            if "vid" in a:
                E.FLD = E.var(P.pre, a["fid"], a["vid"], "fldid")
                E.TYPE = E.var(P.pre, a["fid"], a["vid"], "type")
                if getattr(E, "trustvid", False):
                    P.requires(0 <= a["vid"], a["vid"] < E.NVAR)
                else:
                    E.ok = And(E.okf, 0 <= a["vid"], a["vid"] < E.NVAR)
        S.update(spec(E))
        if S.get("loops"):
            S["loops"](E)
        P.run()
        gh = lambda n: P.final.mem[("ghost_" + n, (), I64)]
        E.gh = gh
        P.ensures("no failed call goes unnoticed", gh("err") == 0)
        if "ret" in S:
            ret = S["ret"](E) if callable(S["ret"]) else S["ret"]
            P.ensures("result", P.ret == ret)
        act = S.get("active", z3.BoolVal(True))
        if "once" in S:
            tot = sum([gh("n_" + n) for n in S["once"]], iv(0))
            P.ensures("the operation is done exactly once, by the processor that has to", tot == If(act, 1, 0))
        if S.get("valid") is not None:
            P.ensures("invalid ids are refused", Implies(act, S["valid"]))
        for n, f in (S.get("ensures") or (lambda E: []))(E):
            P.ensures(n, f)
        # the tables are not changed
        if not S.get("changes"):
            g1, g2 = P.ghost("file"), P.ghost("var")
            for n in ("ncid", "nvar", "action", "status"):
                P.ensures("%s of all files is kept" % n, E.fld(P.post, g1, n) == E.fld(P.pre, g1, n))
            for n in ("fldid", "type"):
                P.ensures("%s of all variables is kept" % n, E.var(P.post, g1, g2, n) == E.var(P.pre, g1, g2, n))
            P.ensures("number of files is kept", P.post.at(P.globalptr("nfiles"), None, I32) == E.N)
        return P
    return b


def I(n):
    return z3.Int(n)


def root(E):
    return E.PE == E.ROOT


TYPES = dict(double=(5, 6), int=(4,), short=(3,), text=(2,))


def tyis(T, w):
    return Or(*[T == k for k in TYPES[w]])


def known(T):
    return And(T >= 2, T <= 6)


def simple(call, args, ret=None):
    def s(E):
        return dict(calls={call: args(E)}, ret=ret, refuse=Not(E.ok), valid=E.ok, once=[call]) if ret is not None else dict(calls={call: args(E)}, refuse=Not(E.ok), valid=E.ok, once=[call])
    return s


def s_value(kind, block):
    def s(E):
        nm = lambda w: "nc_%s_var%s_%s" % (kind, "a" if block else "", w)
        cnt = [E.a["start"], E.a.get("nread", E.a.get("nwrite"))] if block else []
        d = dict(calls={nm(w): [E.NC, E.FLD] + cnt + [E.a["data"]] for w in TYPES}, when={nm(w): tyis(E.TYPE, w) for w in TYPES}, once=[nm(w) for w in TYPES],
                 refuse=Not(And(E.ok, known(E.TYPE))), valid=And(E.ok, known(E.TYPE)))
        if kind == "put":
            d["active"] = root(E)
        return d
    return s


def s_att(double, glob=False):
    def s(E):
        T, n, val = I("att_type"), E.a["name"], E.a["val"]
        v = iv(NC_GLOBAL) if glob else E.FLD
        IVAL, SVAL, LEN = I("att_int"), I("att_short"), I("att_len")
        calls = {"nc_inq_atttype": [E.NC, v, n, Out(I32, T)], "nc_get_att_double": [E.NC, v, n, val]}
        when = {"nc_get_att_double": tyis(T, "double"), "nc_get_att_int": T == 4, "nc_get_att_short": T == 3, "nc_get_att_text": T == 2}
        once = ["nc_get_att_double", "nc_get_att_int", "nc_get_att_short", "nc_get_att_text"]
        ens = lambda E: []
        if double:
            from engine.irparse import I16
            E.P.elem(val, F64)
            E.P.length(val, 1)
            E.P.requires(-2 ** 31 <= IVAL, IVAL < 2 ** 31, -2 ** 15 <= SVAL, SVAL < 2 ** 15)
            calls["nc_get_att_int"] = [E.NC, v, n, Out(I32, IVAL)]
            calls["nc_get_att_short"] = [E.NC, v, n, Out(I16, SVAL)]
            good = And(T >= 3, T <= 6)
            ens = lambda E: [("integers are converted", And(Implies(T == 4, E.P.post.at(val, None, F64) == z3.ToReal(IVAL)), Implies(T == 3, E.P.post.at(val, None, F64) == z3.ToReal(SVAL))))]
        else:
            good = known(T)
            for w in ("int", "short"):
                calls["nc_get_att_" + w] = [E.NC, v, n, val]
            calls["nc_get_att_text"] = [E.NC, v, n, val]
        return dict(calls=calls, when=when, once=once, refuse=Not(And(E.ok, good)), valid=And(E.ok, good), ensures=ens)
    return s


def s_record(E):
    D = I("record_dimension")
    return dict(calls={"nc_inq_unlimdim": [E.NC, Out(I32, D)], "nc_inq_dimname": [E.NC, D, E.a["name"]]}, when={"nc_inq_dimname": D >= 0}, refuse=Not(E.ok), valid=E.ok,
                ret=If(D >= 0, 1, 0), ensures=lambda E: [("the name is given if there is one", E.gh("n_nc_inq_dimname") == If(D >= 0, 1, 0))])


def s_dimlen(E):
    D, L = I("dimension"), I("length")
    E.P.requires(0 <= L, L < 2 ** 31)
    return dict(calls={"nc_inq_dimid": [E.NC, E.a["name"], Out(I32, D)], "nc_inq_dimlen": [E.NC, D, Out(I64, L)]}, refuse=Not(E.ok), valid=E.ok, ret=L)


def s_dimname(E):
    ND = I("ndims")
    ind = E.a["ind"]
    DIM = z3.Function("dimension_of", Z, Z)

    def ids(c):
        p = c.args[2]
        r = p.region
        if r.ety is None or r.ety[0] != "arr":
            raise AttachError("size of the dimension list")
        nb = iv(r.ety[1])
        c.require("room for all dimensions", And(p.idx[-1] + ND <= nb))
        lo = p.idx
        c.bulk(p, I32, lambda *ix: And(*[x == y for x, y in zip(ix[:-1], lo[:-1])], ix[-1] >= lo[-1], ix[-1] < lo[-1] + ND), lambda *ix: DIM(simp(ix[-1] - lo[-1])))
        return [E.NC, E.FLD, ANY]
    E.P.requires(0 <= ND, ND <= 5)
    return dict(calls={"nc_inq_varndims": [E.NC, E.FLD, Out(I32, ND)], "nc_inq_vardimid": ids, "nc_inq_dimname": [E.NC, DIM(ind), E.a["name"]]},
                refuse=Not(And(E.ok, 0 <= ind, ind < ND)), valid=And(E.ok, 0 <= ind, ind < ND), once=["nc_inq_dimname"])


def s_exist(call, args):
    def s(E):
        return dict(calls={call: args(E)}, opt=[call], ok=[call], once=[call], refuse=Not(E.ok), valid=E.ok, ret=lambda E: E.gh("ok_" + call))
    return s


def s_copy_att(glob, byname=False):
    def s(E):
        a = E.a
        fi, fo = a["fid_in"], a["fid_out"]
        NI, NO = [E.fld(E.P.pre, f, "ncid") for f in (fi, fo)]
        E.ok = And(0 <= fi, fi < E.N, 0 <= fo, fo < E.N)
        vi, vo = (iv(NC_GLOBAL), iv(NC_GLOBAL)) if glob else (E.var(E.P.pre, fi, a["vid_in"], "fldid"), E.var(E.P.pre, fo, a["vid_out"], "fldid"))
        if not glob:
            E.P.requires(*[And(0 <= a["vid_" + x], a["vid_" + x] < 1024) for x in ("in", "out")])
        if byname:
            return dict(calls={"nc_copy_att": [NI, vi, a["name"], NO, vo]}, once=["nc_copy_att"], active=root(E), refuse=Not(E.ok), valid=E.ok)
        NA = I("natts")
        E.P.requires(0 <= NA, NA < 2 ** 31 - 1)

        def attname(c):
            c.set_ghost("named", c.args[2])
            E.buf = c.args[3]
            return [NI, vi, ANY, ANY]

        def copy(c):
            c.require("the attribute just named, each in turn", And(same(c.args[2], E.buf), c.ghost("named") == c.ghost("n_nc_copy_att")))
            return [NI, vi, ANY, NO, vo]
        E.P.st0.mem[("ghost_named", (), I64)] = iv(-1)

        def loops(E):
            E.P.loop(0, inv=lambda L: [("i", And(0 <= L["i"], L["i"] <= NA, L["natt"] == NA)), ("all so far", L.st.mem[("ghost_n_nc_copy_att", (), I64)] == L["i"]), ("no error", L.st.mem[("ghost_err", (), I64)] == 0),
                                       ("file", And(L["ncid_in"] == NI, L["ncid_out"] == NO)), ] + ([] if glob else [("var", And(L["fldid_in"] == vi, L["fldid_out"] == vo))]))
        return dict(calls={"nc_inq_varnatts": [NI, vi, Out(I32, NA)], "nc_inq_attname": attname, "nc_copy_att": copy}, refuse=Not(E.ok), active=root(E), valid=E.ok, loops=loops,
                    ensures=lambda E: [("every attribute is copied once", E.gh("n_nc_copy_att") == If(root(E), NA, 0))])
    return s


def s_varid(E):
    """the table: a name that equals the name of an entry means the variable of that entry"""
    a = E.a
    FLD, T = I("netcdf_id"), I("netcdf_type")

    def loops(E):
        E.P.loop(0, inv=lambda L: [("n", And(0 <= L["n"], L["n"] <= E.NVAR))])
    vid = E.NVAR
    E.FLDV, E.TV = FLD, T
    act = Not(And(E.fld(E.P.pre, a["fid"], "action") != 200, Not(root(E))))
    E.P.requires(0 <= a["fid"], a["fid"] < 200)

    def ens(E):
        P = E.P
        f, r = a["fid"], P.ret
        g1, g2 = P.ghost("file"), P.ghost("var")
        new = E.fld(P.post, f, "nvar") == E.NVAR + 1
        out = [("the entry is that of the variable", Implies(act, And(E.var(P.post, f, r, "fldid") == FLD, E.var(P.post, f, r, "type") == T))),
               ("an entry of the table", Implies(act, And(0 <= r, r < E.fld(P.post, f, "nvar")))),
               ("a new entry is the last one and gets the name", Implies(act, Or(And(E.fld(P.post, f, "nvar") == E.NVAR, E.gh("named") == -1), And(new, r == E.NVAR, E.gh("named") == E.NVAR)))),
               ("others get no id", Implies(Not(act), And(r == -1, E.fld(P.post, f, "nvar") == E.NVAR)))]
        for n in ("ncid", "action", "status"):
            out.append(("%s of all files is kept" % n, E.fld(P.post, g1, n) == E.fld(P.pre, g1, n)))
        out.append(("number of variables of other files is kept", Implies(g1 != f, E.fld(P.post, g1, "nvar") == E.fld(P.pre, g1, "nvar"))))
        for n in ("fldid", "type"):
            out.append(("%s of all other variables is kept" % n, Implies(Or(g1 != f, g2 != E.NVAR), E.var(P.post, g1, g2, n) == E.var(P.pre, g1, g2, n))))
        return out
    E.P.st0.mem[("ghost_named", (), I64)] = iv(-1)
    return dict(calls={"nc_inq_varid": [E.NC, a["varname"], Out(I32, FLD)], "nc_inq_vartype": [E.NC, FLD, Out(I32, T)]}, refuse=Or(Not(E.okf), E.NVAR >= 1024), active=act, valid=E.okf, changes=True, loops=loops, ensures=ens)


def c_varid(E):
    def cmp(c):
        x, y = c.args
        a = E.a
        fl = E.P.mod.fields["struct.VarType"].index("name")
        ok = isinstance(x, Ptr) and x.region is E.vreg and x.path[0] == ("f", fl)
        if not ok and isinstance(y, Ptr) and y.region is E.vreg:
            x, y = y, x
            ok = x.path[0] == ("f", fl)
        c.require("compares the name of an entry with the name asked for", And(z3.BoolVal(ok), same(y, a["varname"])))
        r = fresh("strcmp", Z)
        if ok:
            f, v = x.idx[1], x.idx[2]
            c.require("an entry of this file", And(f == a["fid"], 0 <= v, v < E.NVAR))
            c.assume(Implies(r == 0, And(E.var(c, f, v, "fldid") == E.FLDV, E.var(c, f, v, "type") == E.TV)))
        return r

    def cpy(c):
        x, y = c.args[:2]
        fl = E.P.mod.fields["struct.VarType"].index("name")
        ok = isinstance(x, Ptr) and x.region is E.vreg and x.path[0] == ("f", fl)
        c.require("records the name asked for in this file's table", And(z3.BoolVal(ok), x.idx[1] == E.a["fid"], same(y, E.a["varname"])) if ok else z3.BoolVal(False))
        if ok:
            c.set_ghost("named", x.idx[2])
        return None
    return {"strcmp": cmp, "strcpy": cpy}


def s_gatt(E):
    T, n, val = I("att_type"), E.a["name"], E.a["val"]
    LEN = I("att_len")
    E.P.requires(0 <= LEN, LEN <= 4095)
    g = iv(NC_GLOBAL)

    def text(c):
        p = c.args[3]
        c.set_ghost("textlen", LEN)
        if p.region is val.region:
            return [E.NC, g, n, val]
        E.buf = p
        c.require("room for the text", iv(p.region.ety[1]) > LEN if p.region.ety and p.region.ety[0] == "arr" else z3.BoolVal(False))
        return [E.NC, g, n, ANY]
    E.P.st0.mem[("ghost_copied", (), I64)] = iv(0)
    E.P.st0.mem[("ghost_textlen", (), I64)] = iv(-1)
    calls = {"nc_inq_atttype": [E.NC, g, n, Out(I32, T)], "nc_inq_attlen": [E.NC, g, n, Out(I64, LEN)], "nc_get_att_text": text}
    for w in ("double", "int", "short"):
        calls["nc_get_att_" + w] = [E.NC, g, n, val]
    return dict(calls=calls, when={"nc_get_att_" + w: tyis(T, w) for w in TYPES}, once=["nc_get_att_" + w for w in TYPES], refuse=Not(And(E.ok, known(T))), valid=And(E.ok, known(T)),
                ensures=lambda E: [("text reaches the caller with its end", Implies(T == 2, E.gh("copied") == 1))])


def c_gatt(E):
    def ncpy(c):
        x, y, n = c.args
        LEN = I("att_len")
        c.require("the text and its end", And(same(x, E.a["val"]), z3.BoolVal(isinstance(y, Ptr) and y.region is E.buf.region), n == LEN + 1, c.at(Ptr(y.region, y.path, y.idx[:-1] + (LEN,)), None, I8) == 0))
        c.set_ghost("copied", iv(1))
        return None
    return {"strncpy": ncpy}


def s_cart(E):
    """first letter of cartesian_axis, else of axis, else N"""
    C = z3.Function("letter", Z, Z)
    LEN = z3.Function("letters", Z, Z)
    HAS, TXT = z3.Function("has_attribute", Z, z3.BoolSort()), z3.Function("is_text", Z, z3.BoolSort())
    for k in (0, 1):
        E.P.requires(LEN(k) >= 1, LEN(k) < 2 ** 31, -128 <= C(k), C(k) < 128)
    names = {"cartesian_axis": 0, "axis": 1}

    def which(c):
        s = E.P.eng.cstr(c.args[2])
        if s is None:
            raise AttachError("attribute name")
        k = names.get(s)
        c.require("an attribute that names the axis", z3.BoolVal(k is not None))
        return k

    def alen(c):
        k = which(c)
        c.set(c.args[3], I64, LEN(k or 0))
        return [E.NC, E.FLD, ANY, ANY]

    def text(c):
        k = which(c)
        p = c.args[3]
        if k is None:
            return [E.NC, E.FLD, ANY, ANY]
        r = p.region
        if r.scalar or (r.kind == "alloca" and r.ety == I8):
            c.require("room for the text", LEN(k) <= 1)
        elif r.ety is not None and r.ety[0] == "arr":
            c.require("room for the text", LEN(k) <= r.ety[1])
        else:
            room(c, "text", p, I8, LEN(k))
        return [E.NC, E.FLD, ANY, ANY]

    def got(c, r):
        k = which(c) or 0
        c.assume((r == 0) == And(HAS(k), TXT(k)))
        c.set(c.args[3], I8, If(r == 0, C(k), c.at(c.args[3], None, I8)))

    def len_got(c, r):
        c.assume((r == 0) == HAS(which(c) or 0))
    ok = lambda k: And(HAS(k), TXT(k))
    return dict(calls={"nc_inq_attlen": alen, "nc_get_att_text": text}, opt=["nc_inq_attlen", "nc_get_att_text"], after={"nc_get_att_text": got, "nc_inq_attlen": len_got}, refuse=Not(E.ok), valid=E.ok,
                ret=If(ok(0), C(0), If(ok(1), C(1), 78)))


BND = ["climatology", "bounds", "edges"]


def s_bndname(E):
    a = E.a
    LEN = z3.Function("letters", Z, Z)
    HAS = z3.Function("has_attribute", Z, z3.BoolSort())
    E.P.elem(a["bndname"], I8)
    E.P.length(a["bndname"], 256)
    for k in range(3):
        E.P.requires(LEN(k) >= 0, LEN(k) < 256)
    E.P.st0.mem[("ghost_lit", (), I64)] = iv(-1)
    E.P.st0.mem[("ghost_got", (), I64)] = iv(-1)

    def which(c):
        s = E.P.eng.cstr(c.args[2])
        if s is not None:
            return iv(BND.index(s)) if s in BND else iv(-9)
        c.require("the name chosen", z3.BoolVal(getattr(E, "buf", None) is not None and c.args[2].region is E.buf))
        return c.ghost("lit")

    def alen(c):
        k = which(c)
        c.require("an attribute that names the bounds", And(k >= 0, k < 3))
        c.set(c.args[3], I64, LEN(k))
        return [E.NC, E.FLD, ANY, ANY]

    def len_got(c, r):
        c.assume((r == 0) == HAS(which(c)))

    def text(c):
        c.set_ghost("got", which(c))
        return [E.NC, E.FLD, ANY, a["bndname"]]
    first = If(HAS(0), 0, If(HAS(1), 1, If(HAS(2), 2, 3)))
    end = lambda E: E.P.post.at(a["bndname"], LEN(first), I8) == 0
    return dict(calls={"nc_inq_attlen": alen, "nc_get_att_text": text}, opt=["nc_inq_attlen"], after={"nc_inq_attlen": len_got}, refuse=Not(E.ok), valid=E.ok,
                ensures=lambda E: [("the first of climatology, bounds and edges, or none", E.gh("got") == first), ("with its end", Implies(first != 3, end(E)))])


def c_bndname(E):
    def cpy(c):
        s = c.eng.cstr(c.args[1])
        if s == "none":
            c.require("the caller's name", same(c.args[0], E.a["bndname"]))
            c.set_ghost("got", iv(3))
        else:
            E.buf = c.args[0].region
            c.set_ghost("lit", iv(BND.index(s)) if s in BND else iv(-9))
        return None
    return {"strcpy": cpy}


def s_deflation(E):
    a, P = E.a, E.P
    fi, fo, ud, us = [a[x] for x in ("fid_in", "fid_out", "user_deflation", "user_shuffle")]
    P.requires(0 <= fi, fi < E.N, 0 <= fo, fo < E.N, fi != fo)
    NI, NO = [E.fld(P.pre, f, "ncid") for f in (fi, fo)]
    NV = E.fld(P.pre, fo, "nvar")
    E.X, E.SH, E.LV, E.VIN, E.FIN = [z3.Function(n, Z, s) for n, s in (("in_input", z3.BoolSort()), ("shuffle_of", Z), ("level_of", Z), ("input_vid", Z), ("input_fldid", Z))]
    k = z3.Int("k")
    fld = E.var(P.pre, fo, k, "fldid")
    P.requires(forall([k], Implies(And(0 <= k, k < NV), fld == k), [fld]))
    P.requires(forall([k], And(E.VIN(k) >= 0, E.VIN(k) < 1024), [E.VIN(k)]))
    F = I("input_format")
    g = P.ghost("variable")
    P.requires(0 <= g, g < NV)
    look = Or(ud == -1, us == -1)
    applies = Or(Not(look), E.X(g))
    for n in ("set", "named"):
        P.st0.mem[("ghost_" + n, (), I64)] = iv(0)

    def inq(c):
        v = c.ghost("named")
        c.require("the variable of the same name in the input", And(c.args[0] == NI, c.args[1] == E.FIN(v), E.X(v)))
        c.set(c.args[2], I32, E.SH(v))
        c.set(c.args[3], I32, If(E.LV(v) > 0, 1, 0))
        c.set(c.args[4], I32, E.LV(v))
        return [NI, ANY, ANY, ANY, ANY]

    def define(c):
        me = c.args[1] == g
        c.require("level and shuffle asked for or those of the input", Implies(me, And(c.args[2] == If(us == -1, E.SH(g), us), c.args[4] == If(ud == -1, E.LV(g), ud), (c.args[3] != 0) == (c.args[4] != 0), applies)))
        c.set_ghost("set", c.ghost("set") + If(me, 1, 0))
        return [NO, ANY, ANY, ANY, ANY]

    def loops(E):
        gm = lambda L, n: L.st.mem[("ghost_" + n, (), I64)]
        g2 = P.ghost("any")
        P.loop(0, inv=lambda L: [("n", And(0 <= L["vid_out"], L["vid_out"] <= NV)), ("set", gm(L, "set") == If(And(L["vid_out"] > g, applies), 1, 0)), ("no error", gm(L, "err") == 0),
                                 ("tables", And(E.fld(L, fo, "nvar") == NV, E.fld(L, fo, "ncid") == NO, E.fld(L, fi, "ncid") == NI)),
                                 ("output variables", forall([k], E.var(L, fo, k, "fldid") == E.var(P.pre, fo, k, "fldid")))])
    active = And(ud != 0, Not(Or(F == 1, F == 2)))
    return dict(calls={"nc_inq_format": [NI, Out(I32, F)], "nc_inq_var_deflate": inq, "nc_def_var_deflate": define}, refuse=None, changes=True, loops=loops,
                ensures=lambda E: [("every variable is set once", E.gh("set") == If(And(active, applies), 1, 0))])


def c_deflation(E):
    def name(c):
        c.require("a variable of the output", c.args[0] == E.a["fid_out"])
        p = c.args[2]
        c.require("room for the longest name", z3.BoolVal(p.region.ety is not None and p.region.ety[0] == "arr" and p.region.ety[1] >= 128))
        E.buf = p
        c.set_ghost("named", c.args[1])

    def here(c):
        c.require("the name just read, in the input", And(c.args[0] == E.a["fid_in"], same(c.args[1], E.buf)))

    def exist(c):
        here(c)
        return If(E.X(c.ghost("named")), 1, 0)

    def varid(c):
        here(c)
        v = c.ghost("named")
        c.require("it exists", E.X(v))
        c.set(E.fp(E.a["fid_in"], "nvar"), I32, fresh("nvar", Z))
        c.set(E.vp(E.a["fid_in"], E.VIN(v), "fldid"), I32, E.FIN(v))
        return E.VIN(v)
    return {"mpp_get_varname": name, "mpp_var_exist": exist, "mpp_get_varid": varid}


def s_open(E):
    a, P = E.a, E.P
    act = a["action"]
    H = I("handle")
    FMTIN = P.pre.at(P.globalptr("in_format"), None, I32)
    SAME = E.SAME = z3.Function("name_is_file", Z, z3.BoolSort())
    E.HASNC = z3.Bool("has_suffix")
    match = lambda m: And(SAME(m), E.fld(P.pre, m, "action") == act)
    g = P.ghost("entry")
    P.requires(0 <= g, g < E.N)
    FIRST = I("first_match")
    k = z3.Int("k")
    P.requires(FIRST >= 0, FIRST <= E.N, Implies(FIRST < E.N, match(FIRST)), forall([k], Implies(And(0 <= k, k < FIRST), Not(match(k))), [SAME(k)]))
    for n in ("path", "named"):
        P.st0.mem[("ghost_" + n, (), I64)] = iv(-1)
    old = FIRST < E.N
    isact = Or(act == 100, act == 200, act == 300)
    bad = Or(And(old, Or(act == 100, E.fld(P.pre, FIRST, "status") != 0)), And(Not(old), E.N >= 200), Not(isact), And(act == 100, Or(FMTIN < 1, FMTIN > 4)))
    mode = If(FMTIN == 3, 0x1000, If(FMTIN == 4, 0x1100, If(FMTIN == 2, 0x200, 0x100)))
    okpath = lambda c: c.require("the name asked for, ending in .nc", And(z3.BoolVal(isinstance(c.args[0], Ptr) and c.args[0].region is getattr(E, "cur", None)), c.ghost("path") == If(E.HASNC, 1, 2)))

    def op(c):
        okpath(c)
        c.require("for reading or appending", c.args[1] == If(act == 200, 0, 1))
        return [ANY, ANY, Out(I32, H)]

    def cr(c):
        okpath(c)
        return [ANY, mode, ANY, ANY, Out(I32, H)]

    def loops(E):
        P.loop(0, inv=lambda L: [("n", And(0 <= L["n"], L["n"] <= FIRST, L["n"] <= E.N)), ("not yet", L["fid"] == -1)])

    def ens(E):
        r = P.ret
        on = Not(And(act != 200, Not(root(E))))
        nn = P.post.at(P.globalptr("nfiles"), None, I32)
        out = [("the entry of the file", Implies(on, r == FIRST)), ("number of files", nn == If(And(on, Not(old)), E.N + 1, E.N)), ("others get no file", Implies(Not(on), And(r == -1, E.gh("n_nc_open") + E.gh("n_nc__create") == 0))),
               ("state", Implies(on, And(E.fld(P.post, r, "ncid") == H, E.fld(P.post, r, "status") == 1, E.fld(P.post, r, "action") == act, E.fld(P.post, r, "nvar") == If(old, E.fld(P.pre, FIRST, "nvar"), 0)))),
               ("a new entry gets the name", Implies(And(on, Not(old)), E.gh("named") == E.N)), ("opened once", Implies(on, E.gh("n_nc_open") + E.gh("n_nc__create") == 1)),
               ("invalid requests are refused", Implies(on, Not(bad)))]
        for n in ("ncid", "nvar", "action", "status"):
            out.append(("%s of other files is kept" % n, Implies(g != r, E.fld(P.post, g, n) == E.fld(P.pre, g, n))))
        return out
    return dict(calls={"nc_open": op, "nc__create": cr, "nc_inq_format": [H, ANY]}, opt=["nc_inq_format"], when={"nc_open": Or(act == 200, act == 300), "nc__create": act == 100}, refuse=bad, changes=True, loops=loops, ensures=ens)


def c_open(E):
    def cmp(c):
        x, y = c.args
        if isinstance(y, Ptr) and y.region is E.files.region:
            x, y = y, x
        ok = isinstance(x, Ptr) and x.region is E.files.region
        c.require("compares the name of an entry with the file asked for", And(z3.BoolVal(ok), same(y, E.a["file"])))
        r = fresh("strcmp", Z)
        if ok:
            c.assume((r == 0) == E.SAME(x.idx[1]))
        return r

    def cpy(c):
        x, y = c.args[:2]
        c.require("the file asked for", same(y, E.a["file"]))
        if x.region is E.files.region:
            c.set_ghost("named", x.idx[1])
        else:
            E.cur = x.region
            c.set_ghost("path", iv(1))
        return None

    def sstr(c):
        c.require("the suffix of the file", z3.BoolVal(c.eng.cstr(c.args[1]) == ".nc"))
        p = c.args[0]
        return Alt([(E.HASNC, p), (Not(E.HASNC), NULL)])

    def cat(c):
        c.require("appends the suffix", z3.BoolVal(c.eng.cstr(c.args[1]) == ".nc" and c.args[0].region is E.cur))
        c.set_ghost("path", c.ghost("path") + 1)
        return None
    return {"strcmp": cmp, "strcpy": cpy, "strstr": sstr, "strcat": cat, "getenv": lambda c: NULL}


def s_defvar(E):
    a, P = E.a, E.P
    H, F = I("handle"), a["fid"]
    FLD = I("netcdf_id")
    P.requires(a["natts"] >= 0)

    def loops(E):
        P.loop(0, inv=lambda L: [("i", And(0 <= L["i"], L["i"] <= a["natts"])), ("no error", L.st.mem[("ghost_err", (), I64)] == 0), ("atts", L.st.mem[("ghost_n_nc_put_att_text", (), I64)] == L["i"])])

    def ens(E):
        g1, g2 = P.ghost("file"), P.ghost("var")
        out = [("the new entry", Implies(root(E), And(P.ret == E.NVAR, E.fld(P.post, F, "nvar") == E.NVAR + 1, E.var(P.post, F, P.ret, "fldid") == FLD, E.var(P.post, F, P.ret, "type") == a["type"], E.gh("named") == E.NVAR))),
               ("defined once", E.gh("n_nc_def_var") == If(root(E), 1, 0)), ("every attribute is put", E.gh("n_nc_put_att_text") == If(root(E), a["natts"], 0))]
        for n in ("ncid", "action", "status"):
            out.append(("%s of all files is kept" % n, E.fld(P.post, g1, n) == E.fld(P.pre, g1, n)))
        out.append(("number of variables of other files is kept", Implies(g1 != F, E.fld(P.post, g1, "nvar") == E.fld(P.pre, g1, "nvar"))))
        for n in ("fldid", "type"):
            out.append(("%s of all other variables is kept" % n, Implies(Or(g1 != F, g2 != E.NVAR), E.var(P.post, g1, g2, n) == E.var(P.pre, g1, g2, n))))
        return out
    P.st0.mem[("ghost_named", (), I64)] = iv(-1)

    def att(c):
        ok = getattr(E, "lenof", None) is not None and str(E.lenof[0]) == str(c.args[4])
        c.require("the whole text", And(z3.BoolVal(ok), c.args[3] == E.lenof[1]) if ok else z3.BoolVal(False))
        return [E.NC, FLD, ANY, ANY, ANY]
    return dict(calls={"nc_def_var": [E.NC, a["name"], a["type"], a["ndim"], a["dims"], Out(I32, FLD)], "nc_put_att_text": att}, refuse=z3.BoolVal(True), valid=E.okf, active=root(E), changes=True, loops=loops, ensures=ens)


def c_defvar(E):
    def cpy(c):
        x, y = c.args[:2]
        ok = isinstance(x, Ptr) and x.region is E.vreg
        c.require("records the name in this file's table", And(z3.BoolVal(ok), x.idx[1] == E.a["fid"], same(y, E.a["name"])) if ok else z3.BoolVal(False))
        if ok:
            c.set_ghost("named", x.idx[2])
        return None

    def start(c):
        c.args[0].region.opaque = True
        return None
    return {"strcpy": cpy, "llvm.va_start.p0": start, "llvm.va_start": start, "llvm.va_end.p0": start, "llvm.va_end": start}


def s_def(call, args, ret=None, loops=None):
    def s(E):
        d = dict(calls={call: args(E)}, once=[call], active=root(E), refuse=Not(E.ok), valid=E.ok)
        if ret is not None:
            d["ret"] = If(root(E), ret, 0)
        return d
    return s


def s_doubleatt(E):
    def put(c):
        p = c.args[5]
        c.require("the value given", c.at(p, None, F64) == E.a["attval"])
        return [E.NC, E.FLD, E.a["attname"], iv(6), iv(1), ANY]
    return dict(calls={"nc_put_att_double": put}, once=["nc_put_att_double"], active=root(E), refuse=Not(E.ok), valid=E.ok)


def s_copydata(E):
    a = E.a
    P = E.P
    fi, fo = a["fid_in"], a["fid_out"]
    E.ok = And(0 <= fi, fi < E.N, 0 <= fo, fo < E.N)
    ND = I("ndims")
    LEN = z3.Function("dimension_length", Z, Z)
    DIM = z3.Function("dimension_of", Z, Z)
    PROD = z3.Function("product", Z, Z)
    P.requires(0 <= ND, ND <= 5, PROD(0) == 1, 0 <= a["vid_in"], a["vid_in"] < 200, a["vid_out"] >= 0)
    for k in range(5):
        P.requires(PROD(k + 1) == PROD(k) * LEN(DIM(k)), LEN(DIM(k)) >= 0)
    NI = E.fld(P.pre, fi, "ncid")
    FI = E.var(P.pre, fi, a["vid_in"], "fldid")

    def ids(c):
        p = c.args[2]
        c.require("room for all dimensions", And(p.idx[-1] == 0, ND <= (iv(p.region.ety[1]) if p.region.ety and p.region.ety[0] == "arr" else iv(0))))
        c.bulk(p, I32, lambda *ix: And(ix[-1] >= 0, ix[-1] < ND), lambda *ix: DIM(ix[-1]))
        return [NI, FI, ANY]

    def dlen(c):
        c.set(c.args[2], I64, LEN(c.args[1]))
        return [NI, ANY, ANY]

    def loops(E):
        def inv(L):
            i = L["i"]
            return [("i", And(0 <= i, i <= ND, L["ndim"] == ND)), ("size", L["dsize"] == PROD(i)), ("no error", L.st.mem[("ghost_err", (), I64)] == 0)]
        P.loop(0, inv=inv)
    for g in ("got", "put"):
        P.st0.mem[("ghost_" + g, (), I64)] = iv(0)
    E.size = PROD(ND)
    return dict(calls={"nc_inq_vardimid": ids, "nc_inq_dimlen": dlen}, active=root(E), refuse=Not(E.ok), valid=E.ok, loops=loops,
                ensures=lambda E: [("the data are read once and written once", And(E.gh("got") == If(root(E), 1, 0), E.gh("put") == If(root(E), 1, 0)))])


def c_copydata(E):
    def ndim(c):
        c.require("this variable", And(c.args[0] == E.a["fid_in"], c.args[1] == E.a["vid_in"]))
        return I("ndims")

    def get(c):
        c.require("the variable to copy", And(c.args[0] == E.a["fid_in"], c.args[1] == E.a["vid_in"]))
        p = c.args[2]
        b = p.region.bytes
        c.require("room for all its values", (b(*p.idx[:p.region.nprefix]) if callable(b) else b) >= 8 * E.size if b is not None else z3.BoolVal(False))
        E.got = p
        c.set_ghost("got", c.ghost("got") + 1)

    def put(c):
        c.require("into the other file, what was read", And(c.args[0] == E.a["fid_out"], c.args[1] == E.a["vid_out"], same(c.args[2], getattr(E, "got", None)), c.ghost("got") == 1))
        c.set_ghost("put", c.ghost("put") + 1)
    return {"mpp_get_var_ndim": ndim, "mpp_get_var_value": get, "mpp_put_var_value": put}


def s_close(E):
    a = E.a
    act = Not(And(a["fid"] == -1, Not(root(E))))

    def ens(E):
        P = E.P
        g = P.ghost("file")
        f = a["fid"]
        return [("synchronised and closed once", And(E.gh("n_nc_close") == If(act, 1, 0), E.gh("n_nc_sync") <= 1)),
                ("marked as closed", Implies(act, E.fld(P.post, f, "status") == 0))] + [("%s of other files is kept" % n, Implies(g != f, E.fld(P.post, g, n) == E.fld(P.pre, g, n))) for n in ("ncid", "status", "action", "nvar")] + [
                    ("variables are kept", And(E.fld(P.post, f, "nvar") == E.NVAR, E.fld(P.post, f, "action") == E.fld(P.pre, f, "action")))]
    return dict(calls={"nc_sync": [E.NC], "nc_close": [E.NC]}, active=act, refuse=Not(E.okf), valid=E.okf, changes=True, ensures=ens)


def s_fileexist(E):
    NC = I("handle")
    E.P.requires(NC >= 0)
    return dict(calls={"nc_open": [E.a["file"], iv(0), Out(I32, NC)], "nc_close": [NC]}, opt=["nc_open"], ok=["nc_open"], once=["nc_open"], ret=lambda E: E.gh("ok_nc_open"),
                ensures=lambda E: [("closed again", E.gh("n_nc_close") == E.gh("ok_nc_open"))])


def s_fieldexist(E):
    f = E.F = I("opened")
    E.P.requires(0 <= f, f < E.N)
    E.P.st0.mem[("ghost_open", (), I64)] = iv(0)
    return dict(calls={"nc_inq_varid": [E.fld(E.P.pre, f, "ncid"), E.a["field"], Out(I32, I("varid"))]}, opt=["nc_inq_varid"], ok=["nc_inq_varid"], once=["nc_inq_varid"], ret=lambda E: E.gh("ok_nc_inq_varid"),
                ensures=lambda E: [("closed again", E.gh("open") == 0)])


def c_fieldexist(E):
    def op(c):
        c.require("opens the file for reading", And(same(c.args[0], E.a["file"]), c.args[1] == 200))
        c.set_ghost("open", c.ghost("open") + 1)
        return E.F

    def cl(c):
        c.require("closes what it opened", c.args[0] == E.F)
        c.set_ghost("open", c.ghost("open") - 1)
    return {"mpp_open": op, "mpp_close": cl}


def s_gca(E):
    X, V = z3.Bool("has_attribute"), I("value")
    E.X, E.V = X, V
    return dict(calls={}, refuse=Not(And(E.ok, Implies(X, Or(V == 1, V == 0)))), valid=And(E.ok, Implies(X, Or(V == 1, V == 0))), ret=If(And(X, V == 1), 1, 0))


def c_gca(E):
    def ex(c):
        c.require("this attribute", And(c.args[0] == E.a["fid"], z3.BoolVal(c.eng.cstr(c.args[1]) == "great_circle_algorithm")))
        return If(E.X, 1, 0)

    def get(c):
        c.require("this attribute, and it exists", And(c.args[0] == E.a["fid"], z3.BoolVal(c.eng.cstr(c.args[1]) == "great_circle_algorithm"), E.X))
        E.buf = c.args[2]

    def cmp(c):
        lit = {"TRUE": 1, "FALSE": 0}.get(c.eng.cstr(c.args[1]))
        c.require("compares the value", And(same(c.args[0], E.buf), z3.BoolVal(lit is not None)))
        r = fresh("strcmp", Z)
        c.assume((r == 0) == (E.V == (lit if lit is not None else -9)))
        return r
    return {"mpp_global_att_exist": ex, "mpp_get_global_att": get, "strcmp": cmp}


FMT = {"netcdf4": 3, "netcdf4_classic": 4, "64bit_offset": 2, "classic": 1}


def s_setformat(E):
    V = E.V = I("format_asked")
    return dict(calls={}, refuse=Not(And(V >= 1, V <= 4)), changes=True, ensures=lambda E: [("the format asked for", E.P.post.at(E.P.globalptr("in_format"), None, I32) == V)])


def c_setformat(E):
    def cmp(c):
        lit = FMT.get(c.eng.cstr(c.args[1]))
        c.require("compares the name asked for", And(same(c.args[0], E.a["format"]), z3.BoolVal(lit is not None)))
        r = fresh("strcmp", Z)
        c.assume((r == 0) == (E.V == (lit if lit is not None else -9)))
        return r
    return {"strcmp": cmp}


def s_resetformat(E):
    V = E.a["format"]
    return dict(calls={}, refuse=Not(And(V >= 1, V <= 4)), changes=True, ensures=lambda E: [("the format asked for", E.P.post.at(E.P.globalptr("in_format"), None, I32) == V)])


def noidcheck(E):
    """these two trust the variable id"""
    E.trustvid = True
    return {}


def proofs(tier):
    D, N, T = I("dimid"), I("number"), I("type")
    L = [
        ("mpp_get_nvars", simple("nc_inq_nvars", lambda E: [E.NC, Out(I32, N)], N)),
        ("mpp_get_varname", simple("nc_inq_varname", lambda E: [E.NC, E.a["varid"], E.a["name"]])),
        ("mpp_get_record_name", s_record),
        ("mpp_get_dimid", simple("nc_inq_dimid", lambda E: [E.NC, E.a["dimname"], Out(I32, D)], D)),
        ("mpp_get_dimlen", s_dimlen),
        ("mpp_get_var_value", s_value("get", False)),
        ("mpp_get_var_value_block", s_value("get", True)),
        ("mpp_put_var_value", s_value("put", False)),
        ("mpp_put_var_value_block", s_value("put", True)),
        ("mpp_get_var_att", s_att(False)),
        ("mpp_get_var_att_double", s_att(True)),
        ("mpp_get_var_ndim", simple("nc_inq_varndims", lambda E: [E.NC, E.FLD, Out(I32, N)], N)),
        ("mpp_get_var_type", simple("nc_inq_vartype", lambda E: [E.NC, E.FLD, Out(I32, T)], T)),
        ("mpp_get_var_dimname", s_dimname),
        ("mpp_var_att_exist", s_exist("nc_inq_att", lambda E: [E.NC, E.FLD, E.a["att"], Out(I32, T), Out(I64, N)])),
        ("mpp_global_att_exist", s_exist("nc_inq_att", lambda E: [E.NC, iv(NC_GLOBAL), E.a["att"], Out(I32, T), Out(I64, N)])),
        ("mpp_dim_exist", s_exist("nc_inq_dimid", lambda E: [E.NC, E.a["dimname"], Out(I32, D)])),
        ("mpp_var_exist", s_exist("nc_inq_varid", lambda E: [E.NC, E.a["field"], Out(I32, D)])),
        ("mpp_copy_var_att", s_copy_att(False)),
        ("mpp_copy_global_att", s_copy_att(True)),
        ("mpp_copy_att_by_name", s_copy_att(False, True)),
        ("mpp_get_varid", s_varid, c_varid),
        ("mpp_get_global_att", s_gatt, c_gatt),
        ("mpp_get_var_cart", s_cart),
        ("mpp_get_var_bndname", s_bndname, c_bndname),
        ("mpp_set_deflation", s_deflation, c_deflation),
        ("mpp_open", s_open, c_open),
        ("mpp_def_var", s_defvar, c_defvar),
        ("mpp_get_var_natts", simple("nc_inq_varnatts", lambda E: [E.NC, E.FLD, Out(I32, N)], N), noidcheck),
        ("mpp_get_var_attname", simple("nc_inq_attname", lambda E: [E.NC, E.FLD, E.a["i"], E.a["name"]]), noidcheck),
        ("mpp_def_dim", s_def("nc_def_dim", lambda E: [E.NC, E.a["name"], E.a["size"], Out(I32, D)], D)),
        ("mpp_def_global_att", s_def("nc_put_att_text", lambda E: [E.NC, iv(NC_GLOBAL), E.a["name"], E.slen(E.a["val"]), E.a["val"]])),
        ("mpp_def_global_att_double", s_def("nc_put_att_double", lambda E: [E.NC, iv(NC_GLOBAL), E.a["name"], iv(6), E.a["len"], E.a["val"]])),
        ("mpp_def_var_att", s_def("nc_put_att_text", lambda E: [E.NC, E.FLD, E.a["attname"], E.slen(E.a["attval"]), E.a["attval"]])),
        ("mpp_def_var_att_double", s_doubleatt),
        ("mpp_redef", s_def("nc_redef", lambda E: [E.NC])),
        ("mpp_end_def", s_def("nc__enddef", lambda E: [E.NC, ANY, ANY, ANY, ANY])),
        ("mpp_copy_data", s_copydata, c_copydata),
        ("mpp_close", s_close),
        ("mpp_file_exist", s_fileexist),
        ("mpp_field_exist", s_fieldexist, c_fieldexist),
        ("get_great_circle_algorithm", s_gca, c_gca),
        ("set_in_format", s_setformat, c_setformat),
        ("reset_in_format", s_resetformat),
    ]
    return [(x[0], build(x[0], x[1], **({"contracts": x[2]} if len(x) > 2 else {}))) for x in L]


# ------------------------------------------------------------------ bounded stand-in: sessions on real files
def search(S):
    import ctypes
    import re
    import shutil
    import subprocess
    import numpy as np
    from engine import search as H, nc
    from engine.irparse import scratch, REPO
    base = scratch()
    names = sorted(set(re.findall(r"\b(nc__?\w+)\s*\(", open(os.path.join(REPO, IO)).read())) - {"nc_strerror"})
    with open(os.path.join(base, "c09_names.h"), "w") as f:
        f.write("".join("W(%s)\n" % n for n in names if n not in ("nc_inq_format",)))
    rest = [o for f, o in zip(H.LIBC, H.libobjs()) if f != "mpp_io.c"]
    so = H.link("libmppio.so", H.fenced([IO], ("-fstack-protector-all",)) + rest + H.objs(["/verif/harness/c09.c"], ("-I" + base,)), shared=True,
                libs=["-Wl," + ",".join("--wrap=" + n for n in names if n != "nc_inq_format")])
    lib = ctypes.CDLL(so)
    gl = lambda n, t=ctypes.c_int: t.in_dll(lib, n)
    CT = {"d": (ctypes.c_double, 6), "f": (ctypes.c_double, 5), "i": (ctypes.c_int, 4), "h": (ctypes.c_short, 3), "c": (ctypes.c_char, 2)}
    NPT = {"d": np.float64, "f": np.float64, "i": np.int32, "h": np.int16, "c": "S1"}
    READ, WRITE, APPEND = 200, 100, 300
    st = lambda L: (ctypes.c_size_t * max(1, len(L)))(*L)
    lib.mpp_get_var_cart.restype = ctypes.c_char

    def rnd_values(r, t, n):
        if t == "c":
            return [r.choice("abcdefgh") for _ in range(n)]
        if t == "i":
            return [r.randint(-2 ** 31, 2 ** 31 - 1) for _ in range(n)]
        if t == "h":
            return [r.randint(-2 ** 15, 2 ** 15 - 1) for _ in range(n)]
        if t == "f":
            return [float(np.float32(r.uniform(-1e6, 1e6))) for _ in range(n)]
        return [r.uniform(-1e10, 1e10) for _ in range(n)]

    def gen(r, k):
        nd = r.randint(1, 5)
        rec = r.random() < 0.5
        dims = [("d%d" % i, r.randint(1, 4)) for i in range(nd)]
        nrec = r.randint(1, 3)
        if rec:
            dims = [("time", None)] + dims
        long = r.random() < 0.25
        vs = []
        for i in range(r.randint(1, 6)):
            t = r.choice("dfihc")
            dn = [n for n, l in dims if r.random() < 0.6]
            if rec and "time" in dn:
                dn = ["time"] + [x for x in dn if x != "time"]
            dn = dn[:5]
            shp = [nrec if n == "time" else dict(dims)[n] for n in dn]
            n = 1
            for s in shp:
                n *= s
            at = {}
            for q in range(r.randint(0, 3)):
                at["a%d" % q] = r.choice(["text%d" % r.randint(0, 99), r.randint(-9, 9), r.uniform(-5, 5), ("h", r.randint(-99, 99)), ("f", float(np.float32(r.uniform(-1, 1))))])
            if r.random() < 0.3:
                at[r.choice(["cartesian_axis", "axis"])] = r.choice(["X", "Y", "T", "Z", "Xlong", "Time axis"])
            if r.random() < 0.3:
                at[r.choice(["bounds", "climatology", "edges"])] = "b%d" % r.randint(0, 999)
            nm = ("v%d" % i) + ("_" + "n" * r.randint(40, 110) if long and r.random() < 0.6 else "")
            if r.random() < 0.3:
                nm = "v%dx" % i if r.random() < 0.5 else "v%d0" % i
            vs.append((nm, t, dn, rnd_values(r, t, n), at))
        return dict(dims=dims, nrec=nrec, vars=vs, gatts={"g%d" % q: "global%d" % r.randint(0, 99) for q in range(r.randint(0, 3))}, gca=r.choice([None, None, "TRUE", "FALSE"]),
                    fmt=r.choice(["classic", "64bit_offset", "netcdf4", "netcdf4_classic"]), order=r.sample(range(len(vs)), len(vs)), seed=r.randint(0, 10 ** 6), suffix=r.random() < 0.5,
                    fail=None, defl=r.choice([(-1, -1), (0, 0), (3, 1), (-1, 1), (2, -1)]), natts=r.randint(0, 2))

    def gen_fault(r, k):
        c = gen(r, k)
        c["fail"] = r.choice([r.randint(0, 10), r.randint(0, 60), r.randint(0, 300)])
        return c

    def att_value(v):
        if isinstance(v, tuple):
            return np.array([v[1]], dtype=np.int16 if v[0] == "h" else np.float32)
        return v

    def session(c, d):
        """returns None or what is wrong; runs in a child"""
        import random
        r = random.Random(c["seed"])
        A = os.path.join(d, "a.nc")
        dl = {n: (c["nrec"] if l is None else l) for n, l in c["dims"]}
        vs = []
        for nm, t, dn, vals, at in c["vars"]:
            shp = [dl[n] for n in dn]
            vs.append((nm, t, tuple(dn), np.array(vals, dtype="S1" if t == "c" else None).reshape(shp), {k: att_value(v) for k, v in at.items()}))
        g = dict(c["gatts"])
        if c["gca"]:
            g["great_circle_algorithm"] = c["gca"]
        nc.write(A, c["dims"], vs, g)
        if c["fail"] is not None:
            gl("c09_fail", ctypes.c_long).value = c["fail"]
        opt = lambda f, *a: quiet(f, *a)

        def quiet(f, *a):
            gl("c09_inject").value = 0
            x = f(*a)
            gl("c09_inject").value = 1
            return x
        nofault = c["fail"] is None
        stem = lambda p: p if c["suffix"] else p[:-3]
        fa = lib.mpp_open(stem(A).encode(), READ)
        hasvar = [v[0] for v in vs]
        if lib.mpp_get_nvars(fa) != len(vs):
            return "mpp_get_nvars"
        buf = ctypes.create_string_buffer(600)
        if "time" in dl:
            used = True
            if lib.mpp_get_record_name(fa, buf) != 1 or buf.value != b"time":
                return "mpp_get_record_name"
        elif lib.mpp_get_record_name(fa, buf) != 0:
            return "mpp_get_record_name of a file without one"
        vid = {}
        for k in c["order"] + c["order"]:
            nm, t, dn, arr, at = vs[k]
            v = lib.mpp_get_varid(fa, nm.encode())
            if nm in vid and vid[nm] != v:
                return "mpp_get_varid gives %s two ids" % nm
            if v in [x for n, x in vid.items() if n != nm]:
                return "mpp_get_varid gives two variables the same id"
            vid[nm] = v
            if lib.mpp_get_var_type(fa, v) != CT[t][1]:
                return "mpp_get_var_type of %s" % nm
            if lib.mpp_get_var_ndim(fa, v) != len(dn):
                return "mpp_get_var_ndim of %s" % nm
            for i, x in enumerate(dn):
                lib.mpp_get_var_dimname(fa, v, i, buf)
                if buf.value.decode() != x:
                    return "mpp_get_var_dimname %d of %s is %s" % (i, nm, buf.value)
            got = np.full(arr.size + 2, b"#" if t == "c" else 77, dtype=NPT[t])
            lib.mpp_get_var_value(fa, v, got.ctypes.data_as(ctypes.c_void_p))
            if (got[arr.size:] != (b"#" if t == "c" else 77)).any() or (nofault and (got[:arr.size] != arr.reshape(-1)).any()):
                return "mpp_get_var_value of %s (%s) gives %r for %r" % (nm, t, got.tolist(), arr.reshape(-1).tolist())
            if dn:
                s0 = [r.randrange(x) for x in arr.shape]
                n0 = [r.randint(1, x - s) for x, s in zip(arr.shape, s0)]
                sub = arr[tuple(slice(s, s + n) for s, n in zip(s0, n0))].reshape(-1)
                got = np.zeros(sub.size, dtype=NPT[t])
                lib.mpp_get_var_value_block(fa, v, st(s0), st(n0), got.ctypes.data_as(ctypes.c_void_p))
                if nofault and (got != sub).any():
                    return "mpp_get_var_value_block of %s from %r size %r gives %r for %r" % (nm, s0, n0, got.tolist(), sub.tolist())
            if lib.mpp_get_var_natts(fa, v) != len(at):
                return "mpp_get_var_natts of %s" % nm
            for i, (an, av) in enumerate(at.items()):
                buf.raw = b"\0" * 600
                lib.mpp_get_var_attname(fa, v, i, buf)
                if buf.value.decode() != an:
                    return "mpp_get_var_attname"
                if opt(lib.mpp_var_att_exist, fa, v, an.encode()) != 1:
                    return "mpp_var_att_exist of an attribute"
                buf.raw = b"\0" * 600
                lib.mpp_get_var_att(fa, v, an.encode(), buf)
                if isinstance(av, str):
                    w = buf.value.decode()
                    if nofault and w != av:
                        return "mpp_get_var_att %s of %s is %s" % (an, nm, w)
                else:
                    a0 = np.atleast_1d(np.asarray(av))[0]
                    ct = {"f": ctypes.c_double, "i": ctypes.c_short if a0.dtype.itemsize == 2 else ctypes.c_int}[a0.dtype.kind]
                    w = ct.from_buffer(buf).value
                    if nofault and w != a0:
                        return "mpp_get_var_att %s of %s is %r, not %r" % (an, nm, w, a0)
                    dv = ctypes.c_double(-1)
                    lib.mpp_get_var_att_double(fa, v, an.encode(), ctypes.byref(dv))
                    if nofault and dv.value != a0:
                        return "mpp_get_var_att_double %s of %s is %r, not %r" % (an, nm, dv.value, a0)
            if opt(lib.mpp_var_att_exist, fa, v, b"no_such") != 0:
                return "mpp_var_att_exist of nothing"
            want = (at.get("cartesian_axis") or at.get("axis") or "N")[0].encode()
            got = opt(lib.mpp_get_var_cart, fa, v)
            if got != want:
                return "mpp_get_var_cart of %s is %r, not %r" % (nm, got, want)
            want = at.get("climatology") or at.get("bounds") or at.get("edges") or "none"
            opt(lib.mpp_get_var_bndname, fa, v, buf)
            if buf.value.decode() != want:
                return "mpp_get_var_bndname of %s is %r, not %s" % (nm, buf.value, want)
        for i, v in enumerate(vs):
            lib.mpp_get_varname(fa, i, buf)
            if buf.value.decode() != v[0]:
                return "mpp_get_varname"
        for i, (n, l) in enumerate(c["dims"]):
            if lib.mpp_get_dimid(fa, n.encode()) != i:
                return "mpp_get_dimid"
            want = dl[n] if l is not None or any(n in v[2] for v in vs) else 0
            if lib.mpp_get_dimlen(fa, n.encode()) != want:
                return "mpp_get_dimlen"
        if (opt(lib.mpp_dim_exist, fa, b"nodim"), opt(lib.mpp_dim_exist, fa, c["dims"][0][0].encode())) != (0, 1):
            return "mpp_dim_exist"
        if (opt(lib.mpp_var_exist, fa, b"novar"), opt(lib.mpp_var_exist, fa, vs[0][0].encode())) != (0, 1):
            return "mpp_var_exist"
        for an, av in g.items():
            if opt(lib.mpp_global_att_exist, fa, an.encode()) != 1:
                return "mpp_global_att_exist"
            buf.raw = b"#" * 599 + b"\0"
            lib.mpp_get_global_att(fa, an.encode(), buf)
            if buf.value.decode() != av:
                return "mpp_get_global_att %s is %r" % (an, buf.value)
        if opt(lib.mpp_global_att_exist, fa, b"nothing") != 0:
            return "mpp_global_att_exist of nothing"
        if opt(lib.get_great_circle_algorithm, fa) != (c["gca"] == "TRUE"):
            return "get_great_circle_algorithm"
        # write a copy and a new file
        B = os.path.join(d, "b.nc")
        C = os.path.join(d, "c.nc")
        lib.set_in_format(c["fmt"].encode())
        fb = lib.mpp_open(stem(B).encode(), WRITE)
        fc = lib.mpp_open(C.encode(), WRITE)
        if len({fa, fb, fc}) != 3:
            return "two files share an id"
        ids = {}
        for f in (fb, fc):
            for n, l in c["dims"]:
                ids[f, n] = lib.mpp_def_dim(f, n.encode(), l or 0)
        out = {}
        for k, (nm, t, dn, arr, at) in enumerate(vs):
            for f in ((fb, fc) if k % 2 == 0 else (fc, fb)):
                dd = (ctypes.c_int * max(1, len(dn)))(*[ids[f, n] for n in dn])
                na = c["natts"] if f == fc else 0
                out[f, nm] = lib.mpp_def_var(f, nm.encode(), CT[t][1], len(dn), dd, na, *[x for q in range(na) for x in (b"n%d" % q, b"value%d_%d" % (q, k))])
        for k, (nm, t, dn, arr, at) in enumerate(vs):
            lib.mpp_copy_var_att(fa, vid[nm], fb, out[fb, nm])
            lib.mpp_def_var_att(fc, out[fc, nm], b"text", b"some text %d" % k)
            lib.mpp_def_var_att_double(fc, out[fc, nm], b"number", ctypes.c_double(k + 0.25))
            for an in list(at)[:1]:
                lib.mpp_copy_att_by_name(fa, vid[nm], fc, out[fc, nm], an.encode())
        lib.mpp_copy_global_att(fa, fb)
        lib.mpp_def_global_att(fc, b"title", b"a title")
        lib.mpp_def_global_att_double(fc, b"numbers", ctypes.c_size_t(3), (ctypes.c_double * 3)(1.5, 2.5, c["seed"]))
        if c["fmt"].startswith("netcdf4"):
            quiet(lib.mpp_set_deflation, fa, fb, *c["defl"])
        lib.mpp_end_def(fb)
        lib.mpp_end_def(fc)
        for k, (nm, t, dn, arr, at) in enumerate(vs):
            lib.mpp_copy_data(fa, vid[nm], fb, out[fb, nm]) if not (dn and dn[0] == "time") else None
            a = np.ascontiguousarray(arr, dtype=NPT[t]).reshape(-1)
            if dn and dn[0] == "time":
                for f in (fb, fc):
                    for q in range(arr.shape[0]):
                        b = np.ascontiguousarray(arr[q:q + 1], dtype=NPT[t])
                        lib.mpp_put_var_value_block(f, out[f, nm], st([q] + [0] * (len(dn) - 1)), st(b.shape), b.ctypes.data_as(ctypes.c_void_p))
            elif dn and k % 2:
                for q in range(arr.shape[0]):
                    b = np.ascontiguousarray(arr[q:q + 1], dtype=NPT[t])
                    lib.mpp_put_var_value_block(fc, out[fc, nm], st([q] + [0] * (len(dn) - 1)), st(b.shape), b.ctypes.data_as(ctypes.c_void_p))
            else:
                lib.mpp_put_var_value(fc, out[fc, nm], a.ctypes.data_as(ctypes.c_void_p))
        if c["seed"] % 2:
            lib.mpp_redef(fc)
            lib.mpp_def_global_att(fc, b"late", b"added")
            lib.mpp_end_def(fc)
        lib.mpp_close(fb)
        lib.mpp_close(fa)
        lib.mpp_close(fc)
        if opt(lib.mpp_file_exist, B.encode()) != 1 or opt(lib.mpp_file_exist, (B + "x").encode()) != 0:
            return "mpp_file_exist"
        if lib.mpp_open(stem(A).encode(), READ) != fa:
            return "a file opened again for reading gets another id"
        lib.mpp_close(fa)
        if quiet(lib.mpp_field_exist, C.encode(), b"nofield") != 0 or quiet(lib.mpp_field_exist, C.encode(), vs[0][0].encode()) != 1:
            return "mpp_field_exist"
        fp = lib.mpp_open(C.encode(), APPEND)
        lib.mpp_redef(fp)
        lib.mpp_def_global_att(fp, b"appended", b"yes")
        lib.mpp_end_def(fp)
        lib.mpp_close(fp)
        if gl("c09_hit").value:
            return "a failed NetCDF call (number %d) went unnoticed" % c["fail"]
        if c["fail"] is not None:
            return None
        # what was written
        kind = {"classic": b"CDF\x01", "64bit_offset": b"CDF\x02"}.get(c["fmt"], b"\x89HDF")
        for p in (B, C):
            if open(p, "rb").read(4) != kind:
                return "format %s gives a file that starts with %r" % (c["fmt"], open(p, "rb").read(4))
            k = subprocess.run(["ncdump", "-k", p], capture_output=True, text=True).stdout.strip()
            if kind == b"\x89HDF":
                if k.replace("-", " ") != ("netCDF 4" if c["fmt"] == "netcdf4" else "netCDF 4 classic model"):
                    return "format %s gives a %s file" % (c["fmt"], k)
                if c["defl"] == (3, 1) and p == B and False:
                    pass
                subprocess.run(["nccopy", "-k", "classic", p, p + "3"], check=True)
                os.replace(p + "3", p)
        db, vb, gb = nc.read(B)
        dc, vc, gc = nc.read(C)

        def atts_equal(x, y):
            if list(x) != list(y):
                return False
            for k in x:
                a, b = x[k], y[k]
                b = b.encode() if isinstance(b, str) else np.atleast_1d(np.asarray(b))
                if isinstance(a, bytes) != isinstance(b, bytes):
                    return False
                if isinstance(a, bytes):
                    if a != b:
                        return False
                elif a.dtype.kind != b.dtype.kind or (a != b).any():
                    return False
            return True
        for k, (nm, t, dn, arr, at) in enumerate(vs):
            for nmf, F, x in (("copy", vb, None), ("new file", vc, None)):
                if nm not in F:
                    return "%s lacks %s" % (nmf, nm)
                t2, dn2, a2, at2 = F[nm]
                if t2 != t or dn2 != dn or a2.shape != arr.shape or (np.asarray(a2) != arr.astype(a2.dtype)).any():
                    return "%s of the %s is %s%r %r, not %s%r %r" % (nm, nmf, t2, dn2, a2.tolist(), t, dn, arr.tolist())
            if not atts_equal(vb[nm][3], at):
                return "attributes of %s copied as %r, not %r" % (nm, vb[nm][3], at)
            want = {"n%d" % q: "value%d_%d" % (q, k) for q in range(c["natts"])}
            want.update(text="some text %d" % k, number=k + 0.25)
            for an in list(at)[:1]:
                want[an] = at[an]
            if not atts_equal(vc[nm][3], want):
                return "attributes of %s are %r, not %r" % (nm, vc[nm][3], want)
        if not atts_equal(gb, g):
            return "global attributes copied as %r, not %r" % (gb, g)
        want = {"title": "a title", "numbers": np.array([1.5, 2.5, c["seed"]])}
        if c["seed"] % 2:
            want["late"] = "added"
        want["appended"] = "yes"
        if not atts_equal(gc, want):
            return "global attributes are %r, not %r" % (gc, want)
        return None

    def run(c):
        d = os.path.join(base, "s%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        rd, wr = os.pipe()
        pid = os.fork()
        if pid == 0:
            os.close(rd)
            try:
                m = session(c, d)
                os.write(wr, (m or "ok").encode()[:4000])
            except BaseException as e:
                import traceback
                os.write(wr, ("!" + traceback.format_exc()[-1500:]).encode())
            os._exit(0)
        os.close(wr)
        out = b""
        while True:
            x = os.read(rd, 4096)
            if not x:
                break
            out += x
        os.close(rd)
        status = os.waitpid(pid, 0)[1]
        shutil.rmtree(d, ignore_errors=True)
        m = out.decode(errors="replace")
        if m.startswith("!"):
            raise RuntimeError(m)
        if os.WIFSIGNALED(status):
            return "crash with signal %d" % os.WTERMSIG(status)
        if m == "ok":
            return None
        if m:
            return m
        return None if c["fail"] is not None else "the program ended with an error on a valid session"
    # refusals
    def refuse(c):
        what, n = c
        d = os.path.join(base, "r%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        A = os.path.join(d, "a.nc")
        nc.write(A, [("x", 2)], [("v", "d", ("x",), [1.0, 2.0], {"a": "t"}), ("w", "b", ("x",), [1, 2], {"b": np.array([1], dtype=np.int8)})], {"great_circle_algorithm": "MAYBE"})
        sys_buf = ctypes.create_string_buffer(4000)
        pid = os.fork()
        if pid == 0:
            f = lib.mpp_open(A.encode(), READ)
            v = lib.mpp_get_varid(f, b"v")
            bad = [-1, 1, 200, 12345][n % 4]
            p = ctypes.cast(sys_buf, ctypes.c_void_p)
            one = st([1])
            T = {
                "open": lambda: lib.mpp_open(A.encode(), READ), "missing": lambda: lib.mpp_open((A + "x.nc").encode(), READ), "action": lambda: lib.mpp_open((A + "z.nc").encode(), 7),
                "twice": lambda: (lib.mpp_open((A + "w.nc").encode(), WRITE), lib.mpp_close(1), lib.mpp_open((A + "w.nc").encode(), WRITE)),
                "close": lambda: lib.mpp_close([-1, 1, 200, 9][n % 4]), "nvars": lambda: lib.mpp_get_nvars(bad), "varid": lambda: lib.mpp_get_varid(f, b"none"), "dimid": lambda: lib.mpp_get_dimid(f, b"none"),
                "dimlen": lambda: lib.mpp_get_dimlen(f, b"none"), "value": lambda: lib.mpp_get_var_value(f, bad, p), "valuef": lambda: lib.mpp_get_var_value(bad, v, p), "byte": lambda: lib.mpp_get_var_value(f, lib.mpp_get_varid(f, b"w"), p),
                "byteb": lambda: lib.mpp_get_var_value_block(f, lib.mpp_get_varid(f, b"w"), st([0]), one, p),
                "block": lambda: lib.mpp_get_var_value_block(f, v, st([1]), st([2]), p), "att": lambda: lib.mpp_get_var_att(f, v, b"none", p), "attd": lambda: lib.mpp_get_var_att_double(f, v, b"a", p),
                "attb": lambda: lib.mpp_get_var_att(f, lib.mpp_get_varid(f, b"w"), b"b", p), "gatt": lambda: lib.mpp_get_global_att(f, b"none", p), "ndim": lambda: lib.mpp_get_var_ndim(f, bad),
                "type": lambda: lib.mpp_get_var_type(f, bad), "dimname": lambda: lib.mpp_get_var_dimname(f, v, bad, p), "gca": lambda: lib.get_great_circle_algorithm(f), "fmt": lambda: lib.set_in_format(b"netcdf5"),
                "rfmt": lambda: lib.reset_in_format([0, 5, -1, 99][n % 4]), "put": lambda: lib.mpp_put_var_value(f, v, p), "def": lambda: lib.mpp_def_dim(f, b"y", 3), "redef": lambda: lib.mpp_redef(f),
                "copy": lambda: lib.mpp_copy_global_att(f, bad), "attexist": lambda: lib.mpp_var_att_exist(f, bad, b"a")}
            T[what]()
            os._exit(0)
        status = os.waitpid(pid, 0)[1]
        shutil.rmtree(d, ignore_errors=True)
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) != 0:
            return None
        return "invalid request '%s' (%d) was not refused with an error exit" % (what, n)
    allr = ["open", "missing", "action", "twice", "close", "nvars", "varid", "dimid", "dimlen", "value", "valuef", "byte", "byteb", "block", "att", "attd", "attb", "gatt", "ndim", "type", "dimname", "gca", "fmt", "rfmt",
            "put", "def", "redef", "copy", "attexist"]
    S.parallel("refusals", None, refuse, 0, first=[(w, n) for w in allr for n in range(4)], rule="invalid ids, names, types and requests end the program with an error")
    S.parallel("sessions", gen, run, S.secs(9, 120), rule="random files are read, copied and written through mpp_io; results compared with an independent reader")
    S.parallel("faults", gen_fault, run, S.secs(8, 90), rule="the same with one failing NetCDF call: the program must end with an error")

    def deflation(c):
        """levels of the output variables"""
        lev, shuf, ud, us, extra = c
        d = os.path.join(base, "d%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        n = len(lev)
        cdl = "netcdf a {\ndimensions: x = 4 ;\nvariables:\n" + "".join("double v%d(x) ;\n v%d:_DeflateLevel = %d ;\n v%d:_Shuffle = \"%s\" ;\n" % (i, i, lev[i], i, "true" if shuf[i] else "false") for i in range(n)) + "}\n"
        open(d + "/a.cdl", "w").write(cdl)
        subprocess.run(["ncgen", "-k", "nc4", "-o", d + "/a.nc", d + "/a.cdl"], check=True)
        pid = os.fork()
        if pid == 0:
            f = lib.mpp_open((d + "/a.nc").encode(), READ)
            lib.set_in_format(b"netcdf4")
            o = lib.mpp_open((d + "/o.nc").encode(), WRITE)
            x = lib.mpp_def_dim(o, b"x", 4)
            for i in reversed(range(n + extra)):
                lib.mpp_def_var(o, b"v%d" % i, 6, 1, (ctypes.c_int * 1)(x), 0)
            lib.mpp_set_deflation(f, o, ud, us)
            lib.mpp_end_def(o)
            lib.mpp_close(o)
            os._exit(0)
        if os.waitpid(pid, 0)[1] != 0:
            return "mpp_set_deflation failed"
        h = subprocess.run(["ncdump", "-hs", d + "/o.nc"], capture_output=True, text=True).stdout
        shutil.rmtree(d, ignore_errors=True)
        for i in range(n + extra):
            m = re.search(r"v%d:_DeflateLevel = (\d+)" % i, h)
            s = re.search(r"v%d:_Shuffle = \"true\"" % i, h)
            if ud == 0 or (i >= n and -1 in (ud, us)):
                wl, ws = 0, False
            else:
                wl = ud if ud != -1 else lev[i]
                ws = bool(us if us != -1 else shuf[i])
            if (int(m.group(1)) if m else 0) != wl or bool(s) != ws:
                return "variable v%d gets deflation %s shuffle %s, not %d %s" % (i, m and m.group(1), bool(s), wl, ws)

    def g_defl(r, k):
        n = r.randint(1, 4)
        return [r.randint(0, 5) for _ in range(n)], [r.randint(0, 1) for _ in range(n)], r.choice([-1, -1, 0, 2, 4]), r.choice([-1, -1, 0, 1]), r.randint(0, 2)
    S.parallel("deflation", g_defl, deflation, S.secs(4, 30), rule="compression settings of the output follow the options or the input")
