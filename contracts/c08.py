"""C08: grid descriptions (mosaics) are read as written"""
import ctypes
import math
from fractions import Fraction
import os
import numpy as np
import z3
from z3 import Implies, If, Or, Not
from .common import *
from engine.sym import AttachError, Alt, NULL

RM = "lib/libfrencutils/read_mosaic.c"
MU = "lib/libfrencutils/mosaic_util.c"
ASSUMPTIONS = ["strings are sequences of characters of a value each; names of files are not modelled in the proofs (the stand-in runs the real functions on real files)",
               "a NetCDF call that fails returns a non-zero status"]
TRUSTED = ["assumed contracts: NetCDF, strlen, strrchr, strncpy, strcpy, sprintf, atoi; error_handler does not return"]
R, Z = z3.RealSort(), z3.IntSort()


def stop(c):
    c.noreturn = True


def die(c):
    c.require("no error exit for valid input", z3.BoolVal(False))
    c.noreturn = True


def room(c, name, p, ty, count):
    """the block p points into has room for count elements"""
    r, i = p.region, p.idx[p.region.nprefix]
    pre = p.idx[: r.nprefix]
    if r.length is not None:
        c.require("%s: buffer is large enough" % name, And(i >= 0, i + count <= r.length(*pre)))
    elif r.bytes is not None:
        b = r.bytes(*pre) if callable(r.bytes) else r.bytes
        c.require("%s: buffer is large enough" % name, And(i >= 0, (i + count) * c.eng.topmod().sizeof(ty) <= b))
    else:
        raise AttachError("size of the buffer for %s" % name)


class File:
    """the contents of the files read: D[name](i), size of the variable, dimension lengths"""

    def __init__(self, P, sizes, dims):
        self.sizes, self.dims, self.P = sizes, dims, P
        self.f = {}

    def data(self, name, sort=Z):
        if name not in self.f:
            self.f[name] = z3.Function("file_" + name, Z, sort)
        return self.f[name]

    def name(self, p):
        s = self.P.eng.cstr(p)
        if s is None:
            return None
        return s if isinstance(s, str) else "".join(map(chr, [x for x in s if x]))

    def dimlen(self, c):
        n = self.name(c.args[1])
        if n not in self.dims:
            c.require("a dimension of the file (%s)" % n, z3.BoolVal(False))
            return None
        return self.dims[n]

    def fill(self, c, name, p, first, count):
        ent = self.sizes.get(name)
        if ent is None:
            c.require("a variable of the file (%s)" % name, z3.BoolVal(False))
            return
        total, ty = ent
        c.require("%s: inside the variable" % name, And(first >= 0, count >= 0, first + count <= total))
        c.eng.check_type(p.region, p.path, ty)
        room(c, name, p, ty, count)
        f = self.data(name, R if ty == F64 else Z)
        lo = p.idx
        c.bulk(p, ty, lambda *ix: And(*[x == y for x, y in zip(ix[:-1], lo[:-1])], ix[-1] >= lo[-1], ix[-1] < lo[-1] + count), lambda *ix: f(simp(ix[-1] - lo[-1] + first)))

    def var(self, c):
        n = self.name(c.args[1])
        ent = self.sizes.get(n)
        self.fill(c, n, c.args[2], iv(0), ent[0] if ent else iv(0))

    def region(self, c):
        n = self.name(c.args[1])
        st, nr = c.args[2], c.args[3]
        at = lambda p, k: c.at(p, iv(k), I64)
        width = 2 if n in ("tile1_cell", "tile2_cell") else 1
        c.require("%s: whole rows" % n, And(at(st, 1) == 0, at(nr, 1) == width, at(st, 2) == 0, at(st, 3) == 0, at(nr, 2) == 1, at(nr, 3) == 1))
        self.fill(c, n, c.args[4], simp(at(st, 0) * width), simp(at(nr, 0) * width))


def p_xgrid(func):
    def b():
        region, order2 = "region" in func, "order2" in func
        N = z3.Int("ncells")
        F = File(None, {"tile1_cell": (2 * N, I32), "tile2_cell": (2 * N, I32), "xgrid_area": (N, F64), "tile1_distance": (2 * N, F64)}, {"ncells": N})
        P = F.P = Proof(RM, func, contracts={"get_dimlen": F.dimlen, "get_var_data": F.var, "get_var_data_region": F.region, "error_handler": die})
        P.requires(N >= 0, N < 2 ** 29)
        a = P.a
        first, n = iv(0), N
        if region:
            lo, hi = [P.pre.at(a[x], None, I32) for x in ("isc", "iec")]
            for x in ("isc", "iec"):
                P.length(a[x], 1)
            P.requires(0 <= lo, lo <= hi + 1, hi < N)
            first, n = lo, simp(hi - lo + 1)
        names = ["i1", "j1", "i2", "j2", "area"] + (["di", "dj"] if order2 else [])
        for x in names:
            P.elem(a[x], I32 if x in ("i1", "j1", "i2", "j2") else F64)
            P.length(a[x], n)
        T1, T2, A = F.data("tile1_cell"), F.data("tile2_cell"), F.data("xgrid_area", R)
        D = F.data("tile1_distance", R)
        earth = z3.RealVal(str(Fraction(4 * math.pi * 6371000.0 * 6371000.0)))

        def spec(k):
            q = first + k
            s = {"i1": T1(2 * q) - 1, "j1": T1(2 * q + 1) - 1, "i2": T2(2 * q) - 1, "j2": T2(2 * q + 1) - 1, "di": D(2 * q), "dj": D(2 * q + 1)}
            return s
        g = P.ghost("cell")
        P.requires(0 <= g, g < n)
        at = lambda L, x: L.at(a[x], g, I32 if x[0] in "ij" else F64)

        def inv(L):
            k = L["n"]
            garea = L["garea"]
            return [("n", And(0 <= k, k <= n)), ("ncells", L["ncells"] == n), ("done", Implies(k > g, And(*[at(L, x) == spec(g)[x] for x in names if x != "area"]))),
                    ("area", at(L, "area") == If(k > g, A(simp(first + g)) / garea, A(simp(first + g))))]
        if region:
            P.loop(0, unroll=4)
        P.loop(1 if region else 0, inv=inv)
        P.run()
        for x in names:
            if x == "area":
                v, w = at(P.post, x) * earth, A(simp(first + g))
                eps = z3.Q(1, 10 ** 12)
                P.ensures("area is the fraction of the earth's surface", If(w >= 0, And(v <= w * (1 + eps), v >= w * (1 - eps)), And(v >= w * (1 + eps), v <= w * (1 - eps))))
            else:
                P.ensures("%s of each cell is the stored one" % x, at(P.post, x) == spec(g)[x])
        P.F = F
        return P
    return b


def p_transfer():
    P = Proof(RM, "transfer_to_model_index", contracts={"error_handler": stop})
    a = P.a
    s, e, so, eo, r = [a[x] for x in ("istart_in", "iend_in", "istart_out", "iend_out", "refine_ratio")]
    for p in (so, eo):
        P.length(p, 1)
    P.requires(s >= 1, e >= 1, r >= 2)
    P.args[list(a).index("refine_ratio")] = iv(2)
    P.requires(r == 2)
    P.run()
    S_, E_ = P.post.at(so, None, I32), P.post.at(eo, None, I32)
    P.ensures("each end is the model cell that contains the supergrid cell", And(2 * S_ <= s - 1, s - 1 <= 2 * S_ + 1, 2 * E_ <= e - 1, e - 1 <= 2 * E_ + 1))
    P.ensures("type", P.ret == If(s == e, 0, 1))
    P.ensures("a span covers whole model cells", Implies(s != e, If(s < e, And(s % 2 == 1, e % 2 == 0), And(s % 2 == 0, e % 2 == 1))))
    P.ensures("orientation is kept", And(Implies(s < e, S_ <= E_), Implies(s > e, S_ >= E_), Implies(s == e, S_ == E_)))
    return P


def p_transfer_ok():
    """aligned spans are not refused"""
    P = Proof(RM, "transfer_to_model_index", contracts={"error_handler": die})
    a = P.a
    s, e = a["istart_in"], a["iend_in"]
    for p in (a["istart_out"], a["iend_out"]):
        P.length(p, 1)
    P.args[list(a).index("refine_ratio")] = iv(2)
    P.requires(s >= 1, e >= 1, Or(s == e, And(s < e, s % 2 == 1, e % 2 == 0), And(s > e, s % 2 == 0, e % 2 == 1)))
    P.run()
    return P


def p_griddata():
    NI, NJ = z3.Ints("file_nx file_ny")
    sp = {}
    F = File(None, sp, {"nx": NI, "ny": NJ})

    def var(c):
        F.fill(c, "field", c.args[2], iv(0), sp["field"][0])
    P = F.P = Proof(RM, "read_mosaic_grid_data", contracts={"get_dimlen": F.dimlen, "get_var_data": var, "get_file_dir": lambda c: None, "get_string_data_level": lambda c: None, "sprintf": lambda c: None, "error_handler": stop})
    a = P.a
    nx, ny, io, jo = [a[x] for x in ("nx", "ny", "ioff", "joff")]
    sp["field"] = (simp((NI + 1) * (NJ + 1)), F64)
    P.requires(NI >= 0, NJ >= 0, nx >= 1, ny >= 1, Or(io == 0, io == 1), Or(jo == 0, jo == 1))
    W, Hh = nx + 1 - io, ny + 1 - jo
    P.elem(a["data"], F64)
    P.length(a["data"], W * Hh)
    gi, gj = P.ghost("i"), P.ghost("j")
    P.requires(0 <= gi, gi < W, 0 <= gj, gj < Hh)
    x, y, X, Y = z3.Ints("lx ly lX lY")
    flat = P.lemma("flattened index", [x, y, X, Y], Implies(And(0 <= x, x < X, 0 <= y, y < Y), And(y * X + x >= 0, y * X + x < X * Y)))
    x2, y2 = z3.Ints("lx2 ly2")
    uniq = P.lemma("flattened index is unique", [x, y, x2, y2, X], Implies(And(0 <= x, x < X, 0 <= x2, x2 < X, y * X + x == y2 * X + x2), And(x == x2, y == y2)))
    D = F.data("field", R)
    cell = lambda L: L.at(a["data"], simp(gj * W + gi), F64)
    want = D(simp((2 * gj + jo) * (NI + 1) + 2 * gi + io))
    size = lambda L: And(L["ni"] == NI, L["nj"] == NJ, NI == 2 * nx, NJ == 2 * ny, L["nxp"] == W, L["nyp"] == Hh)

    def inst(i, j):
        flat(i, j, W, Hh)
        uniq(i, j, gi, gj, W)
        flat(simp(2 * i + io), simp(2 * j + jo), simp(NI + 1), simp(NJ + 1))

    def inv0(L):
        return [("size", size(L)), ("j", And(0 <= L["j"], L["j"] <= Hh)), ("done", Implies(L["j"] > gj, cell(L) == want))]

    def inv1(L):
        inst(L["i"], L["j"])
        inst(simp(L["i"] - 1), L["j"])
        return [("size", size(L)), ("j", And(0 <= L["j"], L["j"] < Hh)), ("i", And(0 <= L["i"], L["i"] <= W)), ("done", Implies(Or(L["j"] > gj, And(L["j"] == gj, L["i"] > gi)), cell(L) == want))]
    P.loop(0, inv=inv0)
    P.loop(1, inv=inv1)
    P.run()
    P.ensures("each point is the supergrid point it coincides with", cell(P.post) == want)
    return P


def p_sizes():
    NX, NY = z3.Function("tile_nx", Z, Z), z3.Function("tile_ny", Z, Z)
    NT = z3.Int("ntiles_in_file")
    cur = {}

    def dimlen(c):
        n = c.eng.cstr(c.args[1])
        if n == "ntiles":
            return NT
        t = c.eng.load(c.st, Ptr(c.eng.frames[-1].allocas["n"]), I32, chk=False)
        if n not in ("nx", "ny"):
            c.require("a dimension of the file", z3.BoolVal(False))
            return None
        return (NX if n == "nx" else NY)(t)

    def level(c):
        c.require("the grid file of this tile", And(z3.BoolVal(c.eng.cstr(c.args[1]) == "gridfiles"), c.at(c.args[3], None, I32) == c.eng.load(c.st, Ptr(c.eng.frames[-1].allocas["n"]), I32, chk=False)))
    P = Proof(RM, "read_mosaic_grid_sizes", contracts={"get_dimlen": dimlen, "get_file_dir": lambda c: None, "get_string_data_level": level, "sprintf": lambda c: None, "error_handler": stop})
    g = P.ghost("tile")
    P.requires(NT >= 0, 0 <= g, g < NT)
    t = z3.Int("t")
    P.requires(forall([t], NX(t) >= 0, [NX(t)]), forall([t], NY(t) >= 0, [NY(t)]))
    for x in ("nx", "ny"):
        P.elem(P.a[x], I32)
        P.length(P.a[x], NT)
    at = lambda L, x: L.at(P.a[x], g, I32)
    P.loop(0, inv=lambda L: [("n", And(0 <= L["n"], L["n"] <= NT, L["ntiles"] == NT)), ("done", Implies(L["n"] > g, And(2 * at(L, "nx") == NX(g), 2 * at(L, "ny") == NY(g))))])
    P.run()
    P.ensures("each tile has half the supergrid size", And(2 * at(P.post, "nx") == NX(g), 2 * at(P.post, "ny") == NY(g)))
    return P


def same(p, q):
    return z3.BoolVal(isinstance(p, Ptr) and isinstance(q, Ptr) and p.region is q.region and all(simp(x == y).eq(z3.BoolVal(True)) for x, y in zip(p.idx, q.idx)))


def p_getter(func, what):
    """every NetCDF call uses the file, variable and buffer asked for, and a failed call never goes unnoticed"""
    def b():
        def status(c):
            r = fresh("status", Z)
            c.set_ghost("err", If(r != 0, 1, c.ghost("err")))
            return r

        def opened(c):
            c.require("opens the file", same(c.args[0], a["file"]))
            c.set(c.args[2], I32, NC)
            c.set_ghost("open", iv(1))
            return status(c)

        def closed(c):
            c.require("closes the file it opened", And(c.args[0] == NC, c.ghost("open") == 1))
            c.set_ghost("open", iv(0))
            return status(c)

        def inq_var(c):
            c.require("looks up the name asked for", And(c.args[0] == NC, same(c.args[1], a["name"])))
            c.set(c.args[2], I32, VID)
            if func == "field_exist":
                r = fresh("status", Z)
                c.set_ghost("exist", If(r == 0, 1, 0))
                return r
            return status(c)

        def inq_dim(c):
            c.require("looks up the name asked for", And(c.args[0] == NC, same(c.args[1], a["name"])))
            c.set(c.args[2], I32, VID)
            return status(c)

        def dimlen(c):
            c.require("this dimension", And(c.args[0] == NC, c.args[1] == VID))
            c.set(c.args[2], I64, LEN)
            return status(c)

        def vartype(c):
            c.require("this variable", And(c.args[0] == NC, c.args[1] == VID))
            c.set(c.args[2], I32, TYPE)
            return status(c)

        def get(ty, region=False, text=False):
            def f(c):
                c.require("this variable", And(c.args[0] == NC, c.args[1] == VID))
                c.require("into the caller's buffer", same(c.args[-1], a["data"]))
                if ty is not None:
                    c.require("as the type of the variable", TYPE == 4 if ty == "i" else Or(TYPE == 5, TYPE == 6))
                if region:
                    if text:
                        st, nr = c.args[2], c.args[3]
                        c.require("one string", And(c.at(st, iv(0), I64) == LEVEL(), c.at(st, iv(1), I64) == 0, c.at(nr, iv(0), I64) == 1, c.at(nr, iv(1), I64) == 255))
                    else:
                        c.require("the region asked for", And(same(c.args[2], a["start"]), same(c.args[3], a["nread"])))
                c.set_ghost("read", iv(1))
                return status(c)
            return f

        def att(c):
            c.require("the attribute asked for", And(c.args[0] == NC, c.args[1] == VID, same(c.args[2], a["attname"]), same(c.args[3], a["att"])))
            c.set_ghost("read", iv(1))
            return status(c)
        NC, VID, TYPE, LEN = z3.Ints("ncid_ varid_ type_ len_")
        nop = lambda c: None
        P = Proof(RM, func, contracts={"nc_open": opened, "nc_close": closed, "nc_inq_varid": inq_var, "nc_inq_dimid": inq_dim, "nc_inq_dimlen": dimlen, "nc_inq_vartype": vartype,
                                       "nc_get_var_double": get("d"), "nc_get_var_float": get("f"), "nc_get_var_int": get("i"), "nc_get_vara_double": get("d", True), "nc_get_vara_int": get("i", True),
                                       "nc_get_var_text": get(None), "nc_get_vara_text": get(None, True, True), "nc_get_att_text": att, "sprintf": nop, "handle_netcdf_error": stop, "error_handler": stop})
        a = P.a
        for g in ("err", "open", "read", "exist"):
            P.st0.mem[("ghost_" + g, (), I64)] = iv(0)
        if "level" in a:
            P.length(a["level"], 1)
        LEVEL = lambda: P.pre.at(a["level"], None, I32)
        if "level" in a:
            P.requires(LEVEL() >= 0)
            P.loop(0, unroll=4)
        P.requires(0 <= LEN, LEN < 2 ** 31)
        P.run()
        gh = lambda n: P.final.mem[("ghost_" + n, (), I64)]
        P.ensures("no failed call goes unnoticed", gh("err") == 0)
        P.ensures("the file is closed", gh("open") == 0)
        if what == "read":
            P.ensures("the data were read", gh("read") == 1)
        elif what == "len":
            P.ensures("the length of the dimension", P.ret == LEN)
        elif what == "exist":
            P.ensures("whether the variable exists", P.ret == gh("exist"))
        return P
    return b


def c_strlen(c):
    """length of the string at the pointer: the first zero"""
    p = c.args[0]
    lit = c.eng.cstr(p)
    if lit is not None:
        return iv(len(lit))
    r = fresh("strlen", Z)
    j = z3.Int("sl_j")
    at = lambda k: c.at(Ptr(p.region, p.path, p.idx[:-1] + (simp(p.idx[-1] + k),)), None, I8)
    c.assume(And(r >= 0, at(r) == 0, forall([j], Implies(And(0 <= j, j < r), at(j) != 0), [at(j)])))
    return r


def p_tokenize():
    P = Proof(MU, "tokenize", contracts={"error_handler": stop, "strlen": c_strlen})
    a = P.a
    s, t, vl, mv, ps, nstr = [a[x] for x in ("string", "tokens", "varlen", "maxvar", "pstring", "nstr")]
    for p in (s, t, ps):
        P.elem(p, I8)
    P.elem(nstr, I32)
    P.length(nstr, 1)
    SL, TL = z3.Ints("string_len tokens_len")
    P.length(s, SL + 1)
    P.length(t, TL + 1)
    P.length(ps, vl * mv)
    C = lambda k: P.pre.at(s, k, I8)
    T = lambda k: P.pre.at(t, k, I8)
    j = z3.Int("j")
    P.requires(SL >= 0, TL >= 0, C(SL) == 0, T(TL) == 0, vl >= 1, mv >= 1, vl < 2 ** 15, mv < 2 ** 15)
    P.requires(forall([j], Implies(And(0 <= j, j < SL), C(j) != 0), [C(j)]), forall([j], Implies(And(0 <= j, j < TL), T(j) != 0), [T(j)]))
    delim = z3.Function("is_delimiter", Z, z3.BoolSort())
    w = z3.Function("which", Z, Z)
    c_ = z3.Int("c_")
    P.requires(forall([j, c_], Implies(And(0 <= j, j < TL, T(j) == c_), delim(c_)), [T(j), delim(c_)]))
    P.requires(forall([c_], Implies(delim(c_), And(0 <= w(c_), w(c_) < TL, T(w(c_)) == c_)), [delim(c_)]))
    blank = lambda k: Or(C(k) == 32, C(k) == 9)
    keep = lambda k: And(Not(blank(k)), Not(delim(C(k))))
    V, J = z3.Function("token_of", Z, Z), z3.Function("place_in_token", Z, Z)
    P.requires(V(0) == 0, J(0) == 0)
    defd = set()

    def unfold(k):
        k = simp(k)
        if k.get_id() in defd or P.eng.dry:
            return
        defd.add(k.get_id())
        end = And(Not(blank(k)), delim(C(k)), J(k) != 0)
        k1 = simp(k + 1)
        P.eng.facts.append(Implies(k >= 0, And(V(k1) == If(end, V(k) + 1, V(k)), J(k1) == If(end, 0, If(keep(k), J(k) + 1, J(k))))))
    g = P.ghost("char")
    e = P.ghost("end")
    isg, ise = And(0 <= g, g < SL, keep(g)), And(0 <= e, e < SL, Not(blank(e)), delim(C(e)), J(e) != 0)
    x, y, x2, y2, X = z3.Ints("lx ly lx2 ly2 lX")
    uniq = P.lemma("flattened index is unique", [x, y, x2, y2, X], Implies(And(0 <= x, x < X, 0 <= x2, x2 < X, y * X + x == y2 * X + x2), And(x == x2, y == y2)))
    inside = P.lemma("flattened index", [x, y, X, y2], Implies(And(0 <= x, x < X, 0 <= y, y < y2), And(y * X + x >= 0, y * X + x < X * y2)))
    O = lambda L, v, k: L.at(ps, simp(v * vl + k), I8)

    def both(L):
        k = L["i"]
        unfold(k)
        unfold(simp(k - 1))
        unfold(g)
        unfold(e)
        nv, jj = L["nvar"], L["j"]
        for q in (jj, simp(jj - 1)):
            for v in (nv, simp(nv - 1)):
                uniq(q, v, J(g), V(g), vl)
                uniq(q, v, J(e), V(e), vl)
                inside(q, v, vl, mv)
        later = lambda q: Or(V(q) < nv, And(V(q) == nv, J(q) < jj))
        return [("i", And(0 <= k, k <= SL)), ("tokens", And(nv == V(k), jj == J(k), nv >= 0, nv < mv, jj >= 0, jj < vl)), ("lengths", And(L["len"] == SL, L["ntoken"] == TL)),
                ("character", Implies(And(isg, k > g), And(later(g), J(g) >= 0, J(g) < vl, V(g) >= 0, O(L, V(g), J(g)) == C(g)))),
                ("end of token", Implies(And(ise, k > e), And(V(e) < nv, J(e) >= 1, J(e) < vl, O(L, V(e), J(e)) == 0)))]

    def inv1(L):
        n = L["n"]
        k = L["i"]
        return both(L) + [("n", And(0 <= n, n <= TL)), ("not blank", And(k < SL, Not(blank(k)))), ("found", L["found"] == 0),
                          ("none so far", forall([j], Implies(And(0 <= j, j < n), T(j) != C(k)), [T(j)]))]
    P.loop(0, inv=both)
    P.loop(1, inv=inv1)
    P.run()
    P.ensures("number of tokens", P.post.at(nstr, None, I32) == V(SL) + 1)
    P.ensures("every character stands at its place in its token", Implies(isg, O(P.post, V(g), J(g)) == C(g)))
    P.ensures("every token is terminated", Implies(ise, O(P.post, V(e), J(e)) == 0))
    P.ensures("the last token is terminated", O(P.post, V(SL), J(SL)) == 0)
    return P


NAMES = ("istart1", "iend1", "jstart1", "jend1", "istart2", "iend2", "jstart2", "jend2")


def half(x, y):
    """y is the model cell (from 0) of supergrid cell x (from 1)"""
    return And(2 * y <= x - 1, x - 1 <= 2 * y + 1)


def p_contact(accept):
    def b():
        NT, NC = z3.Ints("ntiles_ ncontact_")
        HELD, PARSED = [("ghost_" + n, (), I64) for n in ("held", "parsed")]
        TileName, Tok, Num, NS = z3.Function("tile_name", Z, Z), z3.Function("token", Z, Z, Z), z3.Function("number", Z, Z, Z), z3.Function("ntokens", Z, Z)

        def local(c, n, ty=I32):
            return c.eng.load(c.st, Ptr(c.eng.frames[-1].allocas[n]), ty, chk=False)

        def dimlen(c):
            return {"ntiles": NT, "ncontact": NC}[c.eng.cstr(c.args[1])]

        def level(c):
            kind = c.eng.cstr(c.args[1])
            k = c.at(c.args[3], None, I32)
            c.require("an entry of the file", And(k >= 0, k < (NT if kind == "gridtiles" else NC)))
            room(c, "string", c.args[2], I8, iv(255)) if c.args[2].region.kind == "malloc" else None
            if kind == "gridtiles":
                gt = local(c, "gridtiles", PTR)
                c.require("each tile's own buffer", same(c.args[2], c.eng.load(c.st, Ptr(gt.region, gt.path, gt.idx[:-1] + (k,)), PTR, chk=False)))
            else:
                c.require("read into contacts", z3.BoolVal(c.args[2].region is c.eng.frames[-1].allocas["contacts"]))
                c.set_ghost("held", simp(2 * k + {"contacts": 0, "contact_index": 1}[kind]))

        def tok(c):
            st, lit, vl, mv, ps, ns = c.args
            c.require("the string just read", z3.BoolVal(st.region is c.eng.frames[-1].allocas["contacts"] and ps.region is c.eng.frames[-1].allocas["pstring"]))
            c.require("separators", c.ghost("held") % 2 == {":": 0, ":,": 1}[c.eng.cstr(lit)])
            c.require("room for the tokens", And(vl == 255, mv == 40))
            c.set_ghost("parsed", c.ghost("held"))
            c.set(ns, I32, NS(c.ghost("held")))
            c.assume(And(NS(c.ghost("held")) >= 1, NS(c.ghost("held")) <= 40))

        def row(c, p):
            assert p.region is c.eng.frames[-1].allocas["pstring"]
            return p.idx[1]

        def cmp(c):
            p, q = c.args
            if p.region is c.eng.frames[-1].allocas["pstring"]:
                p, q = q, p
            r = fresh("cmp", Z)
            c.assume((r == 0) == (TileName(p.idx[0]) == Tok(c.ghost("parsed"), row(c, q))))
            return r

        def atoi(c):
            return Num(c.ghost("parsed"), row(c, c.args[0]))

        def slen(c):
            r = fresh("len", Z)
            c.assume(And(0 <= r, r < 255))
            if accept:
                p, l = c.args[0], z3.Int("sl")
                ch = c.at(Ptr(p.region, p.path, p.idx[:-1] + (l,)), None, I8)
                c.assume_all(forall([l], Implies(And(0 <= l, l < r), And(ch >= 48, ch <= 57)), [ch]))
            return r

        def transfer(c):
            s, e, so, eo, q = c.args
            c.require("indices from 1, refinement 2", And(s >= 1, e >= 1, q == 2))
            if accept:
                c.require("aligned", aligned(s, e))
            S_, E_ = fresh("s", Z), fresh("e", Z)
            c.set(so, I32, S_)
            c.set(eo, I32, E_)
            c.assume(And(half(s, S_), half(e, E_)))
            return If(s == e, iv(0), iv(1))
        aligned = lambda s, e: Or(s == e, And(s < e, s % 2 == 1, e % 2 == 0), And(s > e, s % 2 == 0, e % 2 == 1))
        P = Proof(RM, "read_mosaic_contact", contracts={"get_dimlen": dimlen, "get_string_data_level": level, "strcmp": cmp, "tokenize": tok, "atoi": atoi, "strlen": slen, "transfer_to_model_index": transfer,
                                                        "error_handler": die if accept else stop})
        for k in (HELD, PARSED):
            P.st0.mem[k] = iv(0)
        n, k, t = z3.Ints("n k t")
        P.requires(NT >= 0, NC >= 0, NT < 2 ** 27, forall([n, k], Num(n, k) >= 1, [Num(n, k)]))
        if accept:
            w = z3.Function("witness", Z, Z, Z)
            P.requires(forall([n], NS(n) == If(n % 2 == 0, 4, 8), [NS(n)]))
            P.requires(forall([n, k], And(0 <= w(n, k), w(n, k) < NT, TileName(w(n, k)) == Tok(n, k)), [Tok(n, k)]))
            same_ = lambda n, k: If(Num(n, k) == Num(n, k + 1), 0, 1)
            ok = lambda n: And(*[aligned(Num(n, iv(q)), Num(n, iv(q + 1))) for q in (0, 2, 4, 6)], same_(n, 0) + same_(n, 2) >= 1, same_(n, 4) + same_(n, 6) >= 1, same_(n, 0) + same_(n, 2) == same_(n, 4) + same_(n, 6))
            P.requires(forall([n], ok(n), [Num(n, iv(0))]))
        g = P.ghost("contact")
        P.requires(0 <= g, g < NC)
        for x in ("tile1", "tile2") + NAMES:
            P.elem(P.a[x], I32)
            P.length(P.a[x], NC)
        at = lambda L, x: L.at(P.a[x], g, I32)
        C, X = simp(2 * g), simp(2 * g + 1)
        tile = lambda L, x, r: And(1 <= at(L, x), at(L, x) <= NT, TileName(at(L, x) - 1) == Tok(C, iv(r)), forall([t], Implies(And(0 <= t, t < at(L, x) - 1), TileName(t) != Tok(C, iv(r))), [TileName(t)]))
        typ = lambda r: If(Num(X, iv(r)) == Num(X, iv(r + 1)), 0, 1)
        full = lambda L: And(tile(L, "tile1", 1), tile(L, "tile2", 3), *[half(Num(X, iv(q)), at(L, x)) for q, x in enumerate(NAMES)],
                             NS(C) == 4, NS(X) == 8, typ(0) + typ(2) == typ(4) + typ(6), typ(0) + typ(2) >= 1, typ(4) + typ(6) >= 1)
        base = lambda L: [("sizes", And(L["ntiles"] == NT, *([L["ncontacts"] == NC] if "ncontacts" in seen else []))), ("n", And(0 <= L["n"], L["n"] < NC)), ("done", Implies(L["n"] > g, full(L)))]
        seen = {"ncontacts"}
        ph = lambda L, q: L.st.mem[PARSED] == simp(2 * L["n"] + q)
        here = lambda L, f: Implies(L["n"] == g, f)

        def search(x, r):
            def f(L):
                m = L["m"]
                S_ = [("parsed", And(ph(L, 0), L["nstr"] == 4, NS(simp(2 * L["n"])) == 4)), ("m", And(0 <= m, m <= NT)), ("found", L["found"] == 0), ("none so far", forall([t], Implies(And(0 <= t, t < m), TileName(t) != Tok(simp(2 * L["n"]), iv(r))), [TileName(t)]))]
                if r == 3:
                    S_.append(("first tile", here(L, tile(L, "tile1", 1))))
                return base(L) + S_
            return f
        both = lambda L: base(L) + [("parsed", And(ph(L, 1), L["nstr"] == 8, NS(simp(2 * L["n"] + 1)) == 8)), ("counts", And(NS(simp(2 * L["n"])) == 4)), ("tiles", here(L, And(tile(L, "tile1", 1), tile(L, "tile2", 3)))), ("m", And(0 <= L["m"]))]
        P.loop(0, inv=lambda L: [("n", And(0 <= L["n"], L["n"] <= NT, L["ntiles"] == NT))])
        P.loop(1, inv=lambda L: [("sizes", And(L["ntiles"] == NT, L["ncontacts"] == NC)), ("n", And(0 <= L["n"], L["n"] <= NC)), ("done", Implies(L["n"] > g, full(L)))])
        P.loop(2, inv=search("tile1", 1))
        P.loop(3, inv=search("tile2", 3))
        P.loop(4, inv=both)
        P.loop(5, inv=lambda L: both(L) + [("row", And(L["m"] < 8, L["l"] >= 0))])
        P.loop(6, inv=lambda L: [("m", And(0 <= L["m"])), ("sizes", L["ntiles"] == NT), ("done", full(L))])
        P.run()
        P.ensures("tiles and model indices of every contact are the stored ones", full(P.post))
        return P
    return b


def p_filedir():
    def rchr(c):
        c.require("the last slash of the file name", And(same(c.args[0], f), c.args[1] == 47))
        return Alt([(HAS, Ptr(f.region, f.path, f.idx[:-1] + (LAST,))), (Not(HAS), NULL)])

    def ncpy(c):
        d, s_, n = c.args
        c.require("at most the string", And(0 <= n, n <= SL))
        room(c, "directory", d, I8, n)
        lo = d.idx[-1]
        c.bulk(d, I8, lambda *ix: And(ix[-1] >= lo, ix[-1] < lo + n), lambda *ix: c.at(Ptr(s_.region, s_.path, s_.idx[:-1] + (simp(s_.idx[-1] + ix[-1] - lo),)), None, I8))
        return d

    def cpy(c):
        d, lit = c.args[0], c.eng.cstr(c.args[1])
        for k, x in enumerate(list(lit.encode()) + [0]):
            c.set(Ptr(d.region, d.path, d.idx[:-1] + (simp(d.idx[-1] + k),)), I8, iv(x))
        return d
    P = Proof(RM, "get_file_dir", contracts={"strrchr": rchr, "strncpy": ncpy, "strcpy": cpy})
    f, d = P.a["file"], P.a["dir"]
    SL, LAST = z3.Ints("len_ last_")
    HAS = z3.Bool("has_slash")
    for p in (f, d):
        P.elem(p, I8)
        P.length(p, If(SL >= 1, SL + 1, iv(2)) if p is d else SL + 1)
    P.requires(SL >= 0, Implies(HAS, And(0 <= LAST, LAST < SL)))
    g = P.ghost("k")
    P.requires(0 <= g)
    P.run()
    o = lambda k: P.post.at(d, k, I8)
    P.ensures("the directory is the part before the last slash", Implies(HAS, And(o(LAST) == 0, Implies(g < LAST, o(g) == P.pre.at(f, g, I8)))))
    P.ensures("no slash means the current directory", Implies(Not(HAS), And(o(0) == 46, o(1) == 0)))
    return P


def p_ncontacts():
    EX, N = z3.Ints("exist_ ncontact_")

    def ex(c):
        c.require("looks for the contacts", z3.BoolVal(c.eng.cstr(c.args[1]) == "contacts"))
        return EX

    def dl(c):
        c.require("number of contacts", z3.BoolVal(c.eng.cstr(c.args[1]) == "ncontact"))
        c.require("only if there are contacts", EX != 0)
        return N
    P = Proof(RM, "read_mosaic_ncontacts", contracts={"field_exist": ex, "get_dimlen": dl})
    P.run()
    P.ensures("number of contacts, none without the variable", P.ret == If(EX != 0, N, 0))
    return P


def proofs(tier):
    L = [(f, p_xgrid(f)) for f in ("read_mosaic_xgrid_order1", "read_mosaic_xgrid_order1_region", "read_mosaic_xgrid_order2")]
    L += [("transfer_to_model_index", p_transfer), ("transfer_to_model_index accepts", p_transfer_ok), ("read_mosaic_grid_data", p_griddata), ("read_mosaic_grid_sizes", p_sizes)]
    L += [(f, p_getter(f, w)) for f, w in (("get_var_data", "read"), ("get_var_data_region", "read"), ("get_string_data", "read"), ("get_string_data_level", "read"), ("get_var_text_att", "read"), ("get_dimlen", "len"), ("field_exist", "exist"))]
    L += [("get_file_dir", p_filedir), ("read_mosaic_ncontacts", p_ncontacts)]
    L += [("tokenize", p_tokenize), ("read_mosaic_contact", p_contact(False)), ("read_mosaic_contact accepts", p_contact(True))]
    return L


def search(S):
    from engine import search as H, nc
    from engine.irparse import scratch
    rest = [o for f, o in zip(H.LIBC, H.libobjs()) if f not in ("read_mosaic.c", "mosaic_util.c")]
    lib = ctypes.CDLL(H.link("libmosaic.so", H.fenced([RM, MU]) + rest, shared=True))
    base = scratch()
    ptr = lambda a: a.ctypes.data_as(ctypes.c_void_p)
    iarr = lambda n: np.full(n + 4, -77, dtype=np.int32)
    darr = lambda n: np.full(n + 4, -77.0)

    def over(what, a, n):
        if any(x != -77 for x in a[n:]):
            return "%s wrote past the end of its array" % what

    def text(names, width=255):
        a = np.zeros((len(names), width), dtype="S1")
        for i, s in enumerate(names):
            for k, ch in enumerate(s):
                a[i, k] = ch.encode()
        return a

    def refused(f):
        """the call ends the process with an error"""
        pid = os.fork()
        if pid == 0:
            try:
                f()
            finally:
                os._exit(0)
        return os.waitpid(pid, 0)[1] != 0

    # exchange grid files
    def g_x(r, k):
        n = r.choice([1, 2, r.randint(1, 40)])
        pair = lambda: [[r.randint(1, 500), r.randint(1, 500)] for _ in range(n)]
        lo = r.randrange(n)
        return pair(), pair(), [r.choice([r.uniform(0, 1e14), 0.0]) for _ in range(n)], [[r.uniform(-1, 1), r.uniform(-1, 1)] for _ in range(n)], lo, r.randint(lo, n - 1)

    def r_x(c):
        t1, t2, area, dist, lo, hi = c
        n = len(t1)
        p = os.path.join(base, "x%d.nc" % os.getpid())
        nc.write(p, [("ncells", n), ("two", 2)], [("tile1_cell", "i", ("ncells", "two"), t1, {}), ("tile2_cell", "i", ("ncells", "two"), t2, {}), ("xgrid_area", "d", ("ncells",), area, {}), ("tile1_distance", "d", ("ncells", "two"), dist, {})])
        b = p.encode()
        if lib.read_mosaic_xgrid_size(b) != n:
            return "read_mosaic_xgrid_size of a file with %d cells" % n
        earth = 4 * math.pi * 6371000.0 ** 2
        for fn in ("order1", "order1_region", "order2"):
            first, m = (lo, hi - lo + 1) if "region" in fn else (0, n)
            o = [iarr(m) for _ in range(4)] + [darr(m)] + ([darr(m), darr(m)] if fn == "order2" else [])
            extra = [ctypes.byref(ctypes.c_int(lo)), ctypes.byref(ctypes.c_int(hi))] if "region" in fn else []
            getattr(lib, "read_mosaic_xgrid_" + fn)(b, *[ptr(x) for x in o], *extra)
            for x in o:
                e = over("read_mosaic_xgrid_" + fn, x, m)
                if e:
                    return e
            for q in range(m):
                w = [t1[first + q][0] - 1, t1[first + q][1] - 1, t2[first + q][0] - 1, t2[first + q][1] - 1, area[first + q] / earth] + (dist[q] if fn == "order2" else [])
                for z, (x, y) in enumerate(zip(o, w)):
                    if abs(x[q] - y) > 1e-12 * abs(y):
                        return "read_mosaic_xgrid_%s: value %d of cell %d is %r, the file says %r (region %d..%d of %d cells)" % (fn, z, q, x[q], y, lo, hi, n)
    S.parallel("exchange grid files", g_x, r_x, S.secs(3), rule="1 to 40 exchange cells, every region")

    # tokenize, get_file_dir
    def g_t(r, k):
        s = "".join(r.choice("ab:: ,\t/x1") for _ in range(r.randint(1, 30)))
        return s, r.choice([":", ":,", ",", ":/"]), "".join(r.choice("ab/./") for _ in range(r.randint(1, 20)))

    def r_t(c):
        s, d, path = c
        toks, cur = [], ""
        for ch in s:
            if ch in " \t":
                continue
            if ch in d:
                if cur:
                    toks.append(cur)
                    cur = ""
            else:
                cur += ch
        toks.append(cur)
        vl, mv = 32, 40
        buf, n = ctypes.create_string_buffer(vl * mv), ctypes.c_uint(0)
        lib.tokenize(s.encode(), d.encode(), vl, mv, buf, ctypes.byref(n))
        got = [buf.raw[i * vl:(i + 1) * vl].split(b"\0")[0].decode() for i in range(n.value)]
        if got != toks:
            return "tokenize(%r, %r) gives %r, expected %r" % (s, d, got, toks)
        out = ctypes.create_string_buffer(b"?" * 40)
        lib.get_file_dir(path.encode(), out)
        want = path[:path.rindex("/")] if "/" in path else "."
        if out.value.decode() != want:
            return "get_file_dir(%r) gives %r" % (path, out.value)
    S.parallel("strings", g_t, r_t, S.secs(2), rule="strings of 1 to 30 characters with separators and blanks")

    # mosaics
    def g_m(r, k):
        nt = r.choice([1, 2, r.randint(1, 6)])
        sizes = [(r.randint(1, 6), r.randint(1, 6)) for _ in range(nt)]
        names = ["tile%d" % (q + 1) for q in range(nt)]
        if r.random() < .4:
            names = r.sample(["tile1", "tile10", "tile", "a", "tile11", "b1"], nt)
        cons = []

        def span(n, line):
            if line:
                q = r.choice([0, n - 1])
                return (1, 1) if q == 0 else (2 * n, 2 * n)
            a, b = sorted([r.randrange(n), r.randrange(n)])
            return r.choice([(2 * a + 1, 2 * b + 2), (2 * b + 2, 2 * a + 1)])
        for _ in range(r.randint(1, 5)):
            t1, t2 = r.randrange(nt), r.randrange(nt)
            how = r.randrange(5)
            l1, l2 = r.choice([(1, 0), (0, 1)]), r.choice([(1, 0), (0, 1)])
            if how == 0:
                l1 = l2 = (0, 0)
            cons.append((t1, t2, span(sizes[t1][0], l1[0]) + span(sizes[t1][1], l1[1]) + span(sizes[t2][0], l2[0]) + span(sizes[t2][1], l2[1])))
        bad = r.choice(["", "", "", "align", "name", "point", "kind", "count", "digit", "odd"])
        return names, sizes, cons, bad, r.randrange(1 << 30), r.randrange(2), r.randrange(2), r.randrange(2), r.random() < .5

    def r_m(c):
        names, sizes, cons, bad, seed, sub, io, jo, withcon = c
        d = os.path.join(base, "m%d" % os.getpid())
        os.makedirs(d, exist_ok=True)
        rng = np.random.RandomState(seed)
        cons = list(cons)
        str1 = ["m:%s::m:%s" % (names[a], names[b]) for a, b, _ in cons]
        idx = [list(x[2]) for x in cons]
        q = seed % len(cons)
        if bad == "align":
            z = [w for w in (0, 2, 4, 6) if idx[q][w] != idx[q][w + 1]]
            w = z[seed % len(z)]
            idx[q][w] += 1
            idx[q][w + 1] += 1
        elif bad == "name":
            str1[q] = str1[q] + "x"
        elif bad == "point":
            idx[q][0:4] = [1, 1, 1, 1]
        elif bad == "kind":
            a = [int(idx[q][w] != idx[q][w + 1]) for w in (0, 2, 4, 6)]
            if sum(a[:2]) == 2:
                idx[q][0:2] = [1, 1]
            else:
                idx[q][0:4] = [1, 2, 1, 2]
        elif bad == "count":
            str1[q] = "m:" + str1[q]
        str2 = ["%d:%d,%d:%d::%d:%d,%d:%d" % tuple(x) for x in idx]
        if bad == "digit":
            str2[q] = str2[q].replace("1", "x", 1).replace("2", "-", 1)
            if "x" not in str2[q] and "-" not in str2[q]:
                str2[q] += "a"
        nt = len(names)
        data = []
        for t, (nx, ny) in enumerate(sizes):
            sx, sy = 2 * nx + (1 if bad == "odd" and t == 0 else 0), 2 * ny
            a = rng.rand(sy + 1, sx + 1)
            data.append(a)
            nc.write(os.path.join(d, "grid%d.nc" % t), [("nx", sx), ("ny", sy), ("nxp", sx + 1), ("nyp", sy + 1)], [("x", "d", ("nyp", "nxp"), a, {})])
        dims = [("ntiles", nt), ("ncontact", len(cons)), ("string", 255)]
        v = [("gridtiles", "c", ("ntiles", "string"), text(names), {}), ("gridfiles", "c", ("ntiles", "string"), text(["grid%d.nc" % t for t in range(nt)]), {})]
        if withcon or bad:
            v += [("contacts", "c", ("ncontact", "string"), text(str1), {}), ("contact_index", "c", ("ncontact", "string"), text(str2), {})]
        p = os.path.join(d, "mosaic.nc")
        nc.write(p, dims, v)
        b = p.encode()
        if lib.read_mosaic_ntiles(b) != nt:
            return "read_mosaic_ntiles is not %d" % nt
        n = lib.read_mosaic_ncontacts(b)
        if n != (len(cons) if withcon or bad else 0):
            return "read_mosaic_ncontacts is %d" % n
        X, Y = iarr(nt), iarr(nt)
        if bad == "odd":
            if not refused(lambda: lib.read_mosaic_grid_sizes(b, ptr(X), ptr(Y))):
                return "a grid with an odd number of supergrid cells is accepted: %s" % (sizes,)
            return
        lib.read_mosaic_grid_sizes(b, ptr(X), ptr(Y))
        if list(zip(X[:nt], Y[:nt])) != sizes or over("", X, nt) or over("", Y, nt):
            return "read_mosaic_grid_sizes gives %s for %s" % (list(zip(X[:nt], Y[:nt])), sizes)
        t = seed % nt
        nx, ny = sizes[t]
        W, Hh = nx + 1 - io, ny + 1 - jo
        out = darr(W * Hh)
        lib.read_mosaic_grid_data(b, b"x", nx, ny, ptr(out), t, io, jo)
        if list(out[:W * Hh]) != list(data[t][jo::2, io::2].reshape(-1)) or over("", out, W * Hh):
            return "read_mosaic_grid_data of tile %d (%dx%d) with offsets %d %d does not give the supergrid points" % (t, nx, ny, io, jo)
        if not withcon and not bad:
            return
        o = [iarr(len(cons)) for _ in range(10)]
        call = lambda: lib.read_mosaic_contact(b, *[ptr(x) for x in o])
        if bad:
            if not refused(call):
                return "read_mosaic_contact accepts a contact that is wrong (%s): %s %s" % (bad, str1[q], str2[q])
            return
        call()
        for k in range(len(cons)):
            w = [cons[k][0] + 1, cons[k][1] + 1] + [(x - 1) // 2 for x in idx[k]]
            got = [int(x[k]) for x in o]
            if got != w:
                return "read_mosaic_contact: contact %d (%s, %s) is read as %s, expected %s" % (k, str1[k], str2[k], got, w)
        for x in o:
            e = over("read_mosaic_contact", x, len(cons))
            if e:
                return e
    S.parallel("mosaic files", g_m, r_m, S.secs(6, 60), rule="1 to 6 tiles of different size, 1 to 5 contacts in both directions, and damaged contacts that must be refused")

    def g_e(r, k):
        return r.choice(["nofile", "novar", "nodim", "text"])

    def r_e(c):
        p = os.path.join(base, "e%d.nc" % os.getpid())
        nc.write(p, [("n", 2)], [("v", "d", ("n",), [1, 2], {}), ("s", "h", ("n",), [1, 2], {})])
        b, buf = p.encode(), darr(8)
        st = (ctypes.c_size_t * 4)(0, 0, 0, 0)
        nr = (ctypes.c_size_t * 4)(3, 1, 1, 1)
        tests = {"nofile": [lambda: lib.get_dimlen(b + b"x", b"n"), lambda: lib.get_var_data(b + b"x", b"v", ptr(buf)), lambda: lib.field_exist(b + b"x", b"v")],
                 "novar": [lambda: lib.get_var_data(b, b"w", ptr(buf)), lambda: lib.get_var_data_region(b, b"w", st, nr, ptr(buf)), lambda: lib.get_string_data(b, b"w", ptr(buf)), lambda: lib.get_var_text_att(b, b"v", b"units", ptr(buf))],
                 "nodim": [lambda: lib.get_dimlen(b, b"m"), lambda: lib.get_var_data_region(b, b"v", st, nr, ptr(buf))],
                 "text": [lambda: lib.get_var_data(b, b"s", ptr(buf)), lambda: lib.get_var_data_region(b, b"s", st, nr, ptr(buf))]}[c]
        for i, f in enumerate(tests):
            if not refused(f):
                return "a failing read (%s, %d) is not reported" % (c, i)
        if lib.field_exist(b, b"v") != 1 or lib.field_exist(b, b"w") != 0 or lib.get_dimlen(b, b"n") != 2:
            return "field_exist or get_dimlen is wrong"
    S.parallel("errors", g_e, r_e, S.secs(1), rule="missing files, variables, dimensions and wrong types")
    S.samples = [{"contacts": "m:tile1::m:tile2", "contact_index": "1:4,4:4::4:1,1:1"}]
