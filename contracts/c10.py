"""C10: the exchange grid has one cell for every pair of overlapping cells"""
import ctypes
import math
from fractions import Fraction
import numpy as np
import z3
from z3 import Implies, If, Or, Not
from engine.sym import AttachError, LoopCtx
from .common import *

XG = "lib/libfrencutils/create_xgrid.c"
MU = "lib/libfrencutils/mosaic_util.c"
R, Z = z3.RealSort(), z3.IntSort()
ASSUMPTIONS = ["grids have at least one cell and fewer than 2^31 corners",
               "MAXXGRID is at least 1 and below 2^31"]
TRUSTED = ["malloc succeeds"]
real = lambda x: z3.RealVal(str(Fraction(x)))
THRESH = real(1.e-6)


def el(p, i):
    return Ptr(p.region, p.path, p.idx[:-1] + (simp(p.idx[-1] + i),))


def stop(c):
    c.noreturn = True


# the polygons the geometry routines compute, as values: a polygon is named by what it was computed from
FIX = z3.Function("FixLon", *([R] * 9), Z)
CLIP = z3.Function("ClipBox", Z, R, R, R, R, Z)
CLIP2 = z3.Function("ClipPoly", Z, Z, R, Z)
CLIPG = z3.Function("ClipGreatCircle", *([R] * 24), Z)
PX, PY, PZ = [z3.Function("poly_" + n, Z, Z, R) for n in "xyz"]
PN = z3.Function("poly_n", Z, Z)
AREA, AREAG, AREA0, AREAD, CLAT, MINX, MAXX, AVGX = [z3.Function(n, Z, R) for n in ("Area", "AreaGreatCircle", "AreaNoAdjust", "AreaDimensionless", "CentroidLat", "MinX", "MaxX", "MeanX")]
CLON = z3.Function("CentroidLon", Z, R, R)
QUAD = z3.Function("Quad", *([R] * 8), Z)
X3 = [z3.Function("xyz_" + n, R, R, R) for n in "xyz"]


def fill(c, p, n, f):
    lo = p.idx
    c.bulk(p, F64, lambda *ix: And(*[x == y for x, y in zip(ix[:-1], lo[:-1])], ix[-1] >= lo[-1], ix[-1] < lo[-1] + n), lambda *ix: f(simp(ix[-1] - lo[-1])))


def reads(c, p, k):
    return c.at(p, iv(k), F64)


def holds(c, what, p, n, f):
    """the first n elements of p are f(0), f(1), ..."""
    l = z3.Int(freshname("l"))
    c.require(what, forall([l], Implies(And(0 <= l, l < n), c.at(el(p, l), None, F64) == f(l)), []))


def capacity(c, p, n):
    r = p.region
    if r.ety and r.ety[0] == "arr":
        c.require("room for the polygon", And(p.idx[-1] >= 0, p.idx[-1] + n <= r.ety[1]))
        return
    from .c08 import room
    room(c, "polygon", p, F64, n)


class Geometry:
    """contracts of the geometry routines; the current polygons are ghost state"""

    def __init__(self, P, MAX):
        self.P, self.MAX = P, MAX
        P.st0.mem[("ghost_fix", (), I64)] = iv(0)
        P.st0.mem[("ghost_clip", (), I64)] = iv(0)

    def fix_lon(self, c):
        x, y, n, t = c.args
        c.require("the four corners of a cell", n == 4)
        tag = FIX(*[reads(c, x, k) for k in range(4)], *[reads(c, y, k) for k in range(4)], t)
        capacity(c, x, iv(10))
        capacity(c, y, iv(10))
        c.assume(And(PN(tag) >= 0, PN(tag) <= 10))
        fill(c, x, 10, lambda l: PX(tag, l))
        fill(c, y, 10, lambda l: PY(tag, l))
        c.set_ghost("fix", tag)
        return PN(tag)

    def poly(self, c, which, x, y, n, z=None):
        tag = c.ghost(which)
        c.require("number of vertices of the polygon", n == PN(tag))
        for p, f in ((x, PX), (y, PY)) + (((z, PZ),) if z is not None else ()):
            if p is not None:
                holds(c, "vertices of the polygon", p, n, lambda l: f(tag, l))
        return tag

    def out(self, c, tag, ps):
        c.assume(And(PN(tag) >= 0, PN(tag) <= 50))
        for p, f in zip(ps, (PX, PY, PZ)):
            capacity(c, p, iv(50))
            fill(c, p, 50, lambda l, f=f: f(tag, l))
        c.set_ghost("clip", tag)
        return PN(tag)

    def clip(self, c):
        x, y, n, x0, y0, x1, y1, xo, yo = c.args
        return self.out(c, CLIP(self.poly(c, "fix", x, y, n), x0, y0, x1, y1), (xo, yo))

    def great(self, c):
        a = c.args
        c.require("the four corners of each cell", And(a[3] == 4, a[7] == 4))
        tag = CLIPG(*[reads(c, p, k) for p in (a[0], a[1], a[2], a[4], a[5], a[6]) for k in range(4)])
        return self.out(c, tag, a[8:11])

    def area(self, c):
        x, y, n = c.args
        return AREA(self.poly(c, "clip", x, y, n))

    def area_great(self, c):
        n, x, y, z = c.args
        return AREAG(self.poly(c, "clip", x, y, n, z))

    def clat(self, c):
        x, y, n = c.args
        return CLAT(self.poly(c, "clip", x, y, n))

    def clon(self, c):
        x, y, n, m = c.args
        return CLON(self.poly(c, "clip", x, y, n), m)

    def avg(self, c):
        n, x = c.args
        return AVGX(self.poly(c, "fix", x, None, n))

    def ext(self, fn, op):
        def f(c):
            n, x = c.args
            if z3.is_int_value(simp(n)):
                v = reads(c, x, 0)
                for k in range(1, simp(n).as_long()):
                    w = reads(c, x, k)
                    v = If(op(w, v), w, v)
                return v
            return fn(self.poly(c, "fix", x, None, n))
        return f

    def table(self):
        return {"fix_lon": self.fix_lon, "clip": self.clip, "poly_area": self.area, "poly_ctrlat": self.clat, "poly_ctrlon": self.clon, "avgval_double": self.avg,
                "clip_2dx2d_great_circle": self.great, "great_circle_area": self.area_great,
                "minval_double": self.ext(MINX, lambda a, b: a < b), "maxval_double": self.ext(MAXX, lambda a, b: a > b),
                "get_maxxgrid": lambda c: self.MAX, "error_handler": stop, "printf": lambda c: None}


def same(p, q):
    return z3.BoolVal(isinstance(p, Ptr) and isinstance(q, Ptr) and p.region is q.region and p.path == q.path and all(simp(x == y).eq(z3.BoolVal(True)) for x, y in zip(p.idx, q.idx)))


class Pair:
    """the two grids of a create_xgrid function and the records it makes; grid 1 is the source (it has the mask), grid 2 the destination"""

    def __init__(self, func, order):
        s = self
        MAX = s.MAX = z3.Int("MAXXGRID")
        s.tab = {}
        P = s.P = Proof(XG, func, contracts=s.tab)
        G = s.G = Geometry(P, MAX)
        s.tab.update(G.table())
        P.eng.contracts.update(s.tab)
        a = s.a = P.a
        for n in ("nlon_in", "nlat_in", "nlon_out", "nlat_out"):
            P.elem(a[n], I32)
            P.length(a[n], 1)
        at = lambda n: P.pre.at(a[n], iv(0), I32)
        s.nx1, s.ny1, s.nx2, s.ny2 = at("nlon_in"), at("nlat_in"), at("nlon_out"), at("nlat_out")
        P.requires(MAX >= 1, MAX < 2 ** 31)
        for n in (s.nx1, s.ny1, s.nx2, s.ny2):
            P.requires(n >= 1)
        for nx, ny in ((s.nx1, s.ny1), (s.nx2, s.ny2)):
            P.requires((nx + 1) * (ny + 1) < 2 ** 31, nx * ny < 2 ** 31)
        s.ints = [a[n] for n in ("i_in", "j_in", "i_out", "j_out")]
        s.dbls = [a["xgrid_area"]] + ([a["xgrid_clon"], a["xgrid_clat"]] if order == 2 else [])
        for p, ty in [(p, I32) for p in s.ints] + [(p, F64) for p in s.dbls]:
            P.elem(p, ty)
            P.length(p, MAX)
        P.elem(a["mask_in"], F64)
        P.length(a["mask_in"], simp(s.nx1 * s.ny1))
        s.g1d = {}
        s.mask = lambda j, i: P.pre.at(a["mask_in"], simp(j * s.nx1 + i), F64)
        s.A1, s.A1n, s.A2 = [z3.Function(n, Z, R) for n in ("CellArea1", "CellAreaNoAdjust1", "CellArea2")]
        s.area_calls = 0
        x, y, X, Y, x2, y2 = z3.Ints("lx ly lX lY lx2 ly2")
        s.flat = P.lemma("flattened index", [x, y, X, Y], Implies(And(0 <= x, x < X, 0 <= y, y < Y), And(y * X + x >= 0, y * X + x < X * Y)))
        s.uniq = P.lemma("flattened index is unique", [x, y, x2, y2, X], Implies(And(0 <= x, x < X, 0 <= x2, x2 < X, y * X + x == y2 * X + x2), And(x == x2, y == y2)))
        # ghost pair, ghost record, ghost corner
        s.g = [P.ghost(n) for n in ("j1", "i1", "j2", "i2")]
        s.K = P.ghost("record")
        s.gc = [P.ghost(n) for n in ("row", "column")]
        j1, i1, j2, i2 = s.g
        P.requires(0 <= j1, j1 < s.ny1, 0 <= i1, i1 < s.nx1, 0 <= j2, j2 < s.ny2, 0 <= i2, i2 < s.nx2, s.K >= 0)
        s.pos = z3.Function("Position", Z, Z, Z, Z, Z)

    def grid(self, which, oned):
        """corner coordinates of a grid with one- or two-dimensional bounds"""
        s, P = self, self.P
        lon, lat = [s.a[n + ("_in" if which == 1 else "_out")] for n in ("lon", "lat")]
        nx, ny = (s.nx1, s.ny1) if which == 1 else (s.nx2, s.ny2)
        for p, n in ((lon, nx + 1 if oned else (nx + 1) * (ny + 1)), (lat, ny + 1 if oned else (nx + 1) * (ny + 1))):
            P.elem(p, F64)
            P.length(p, simp(n))
        if oned:
            s.g1d[which] = True
            return (lambda j, i: P.pre.at(lon, simp(i), F64)), (lambda j, i: P.pre.at(lat, simp(j), F64))
        f = lambda p: (lambda j, i: P.pre.at(p, simp(j * (nx + 1) + i), F64))
        return f(lon), f(lat)

    def cells(self, which):
        """contract of get_grid_area*: the areas of the cells of the grid it is given"""
        def f(c, adjust=True):
            s = self
            pnx, pny, lon, lat, area = c.args
            one = same(pnx, s.a["nlon_in"]).eq(z3.BoolVal(True))
            w = 1 if one else 2
            nx, ny = (s.nx1, s.ny1) if one else (s.nx2, s.ny2)
            c.require("size of the same grid", And(same(pnx, s.a["nlon_in" if one else "nlon_out"]), same(pny, s.a["nlat_in" if one else "nlat_out"])))
            qlon, qlat = [s.a[n + ("_in" if one else "_out")] for n in ("lon", "lat")]
            if w in s.g1d:
                gj, gi = s.gc
                k = simp(gj * (nx + 1) + gi)
                c.require("bounds of every corner", Implies(And(0 <= gj, gj <= ny, 0 <= gi, gi <= nx), And(c.at(lon, k, F64) == s.P.pre.at(qlon, gi, F64), c.at(lat, k, F64) == s.P.pre.at(qlat, gj, F64))))
            else:
                c.require("corners of the same grid", And(same(lon, qlon), same(lat, qlat)))
            from .c08 import room
            room(c, "areas", area, F64, simp(nx * ny))
            F = (s.A1 if adjust else s.A1n) if one else s.A2
            if not adjust:
                c.require("only for the source grid", z3.BoolVal(one))
            fill(c, area, simp(nx * ny), lambda l: F(l))
        return f

    def before(self, cur, order):
        """the ghost pair comes before the current one; order: which coordinates vary slowest first"""
        g = dict(zip(("j1", "i1", "j2", "i2"), self.g))
        f = z3.BoolVal(False)
        for n in reversed(order):
            if cur.get(n) is None:
                continue
            f = Or(g[n] < cur[n], And(g[n] == cur[n], f))
        return f

    def record(self, V, k, pair, want):
        ints = [V.at(p, k, I32) for p in self.ints]
        j1, i1, j2, i2 = pair
        return And(ints[0] == i1, ints[1] == j1, ints[2] == i2, ints[3] == j2, *[V.at(p, k, F64) == w for p, w in zip(self.dbls, want)])

    def valid(self, V, k):
        i1, j1, i2, j2 = [V.at(p, k, I32) for p in self.ints]
        return And(0 <= i1, i1 < self.nx1, 0 <= j1, j1 < self.ny1, 0 <= i2, i2 < self.nx2, 0 <= j2, j2 < self.ny2)


def quad(f, j, i):
    return [f(j, i), f(j, i + 1), f(j + 1, i + 1), f(j + 1, i)]


def p_box(func):
    """create_xgrid_1dx2d_* and 2dx1d_*: one of the grids has rectangular cells"""
    def b():
        order = 2 if func.endswith("order2") else 1
        box1 = "1dx2d" in func
        s = Pair(func, order)
        P = s.P
        C = s.cells(0)
        P.eng.contracts.update({"get_grid_area": C, "get_grid_area_no_adjust": lambda c: C(c, False)})
        bx = s.grid(1 if box1 else 2, True)
        px = s.grid(2 if box1 else 1, False)
        (bj, bi), (pj, pi) = (("j1", "i1"), ("j2", "i2")) if box1 else (("j2", "i2"), ("j1", "i1"))
        slow = (bj, bi, pj, pi)
        size = dict(j1=s.ny1, i1=s.nx1, j2=s.ny2, i2=s.nx2)

        def spec(j1, i1, j2, i2):
            v = dict(j1=j1, i1=i1, j2=j2, i2=i2)
            ll = bx[0](None, v[bi]), bx[1](v[bj], None)
            ur = bx[0](None, v[bi] + 1), bx[1](v[bj] + 1, None)
            xs, ys = quad(px[0], v[pj], v[pi]), quad(px[1], v[pj], v[pi])
            poly = FIX(*xs, *ys, (ll[0] + ur[0]) / 2)
            cl = CLIP(poly, ll[0], ll[1], ur[0], ur[1])
            m = s.mask(j1, i1)
            A = AREA(cl) * m
            c1, c2 = simp(j1 * s.nx1 + i1), simp(j2 * s.nx2 + i2)
            A1 = s.A1(c1)
            if box1 and order == 1:
                A1 = If(s.nx1 > 1, s.A1(c1), s.A1n(c1))
            small = If(A1 < s.A2(c2), A1, s.A2(c2))
            F = And(m > z3.RealVal("0.5"), Not(And(*[y <= ll[1] for y in ys])), Not(And(*[y >= ur[1] for y in ys])), PN(cl) > 0, A / small > THRESH)
            return F, [A] + ([CLON(cl, AVGX(poly)), CLAT(cl)] if order == 2 else [])
        def more(L, depth):
            if depth <= 2:
                return []
            corner = [("ll_lon", bx[0](None, L[bi])), ("ur_lon", bx[0](None, L[bi] + 1)), ("ll_lat", bx[1](L[bj], None)), ("ur_lat", bx[1](L[bj] + 1, None))]
            return [(n, L[n] == w) for n, w in corner]

        def corners(L, depth):
            j, i = L[bj], L[bi] if depth == 2 else iv(0)
            gj, gi = s.gc
            nx = simp(size[bi] + 1)
            k = simp(gj * nx + gi)
            s.uniq(i, j, gi, gj, nx)
            s.uniq(simp(i - 1), j, gi, gj, nx)
            s.flat(i, j, nx, simp(size[bj] + 1))
            s.flat(gi, gj, nx, simp(size[bj] + 1))
            done = Or(gj < j, And(gj == j, gi < i))
            fs = [("row", And(0 <= j, j <= size[bj] + (1 if depth == 1 else 0)))]
            if depth == 2:
                fs.append(("column", And(0 <= i, i <= size[bi] + 1)))
            fs.append(("corner", Implies(And(done, 0 <= gj, gj <= size[bj], 0 <= gi, gi <= size[bi]), And(L.at(L["tmpx"], k, F64) == bx[0](None, gi), L.at(L["tmpy"], k, F64) == bx[1](gj, None)))))
            return fs
        P.loop(0, inv=lambda L: corners(L, 1))
        P.loop(1, inv=lambda L: corners(L, 2))
        return finish(s, spec, slow, size, box1, 2, more)
    return b


def least(v, op):
    r = v[0]
    for w in v[1:]:
        r = If(op(w, r), w, r)
    return r


def p_great():
    """create_xgrid_great_circle"""
    s = Pair("create_xgrid_great_circle", 2)
    P = s.P
    C = s.cells(0)

    def xyz(c):
        n, lon, lat = c.args[:3]
        one = same(lon, s.a["lon_in"]).eq(z3.BoolVal(True))
        sfx = "_in" if one else "_out"
        nx, ny = (s.nx1, s.ny1) if one else (s.nx2, s.ny2)
        c.require("all corners of one grid", And(same(lon, s.a["lon" + sfx]), same(lat, s.a["lat" + sfx]), n == (nx + 1) * (ny + 1)))
        from .c08 import room
        for p, f in zip(c.args[3:], X3):
            room(c, "coordinates", p, F64, n)
            fill(c, p, n, lambda l, f=f: f(P.pre.at(lon, l, F64), P.pre.at(lat, l, F64)))
    P.eng.contracts.update({"get_grid_great_circle_area": C, "latlon2xyz": xyz})
    g1, g2 = s.grid(1, False), s.grid(2, False)
    slow = ("j1", "i1", "j2", "i2")
    size = dict(j1=s.ny1, i1=s.nx1, j2=s.ny2, i2=s.nx2)

    def spec(j1, i1, j2, i2):
        cs = []
        for g, j, i in ((g1, j1, i1), (g2, j2, i2)):
            at = [(j, i), (j + 1, i), (j + 1, i + 1), (j, i + 1)]
            for f in X3:
                cs += [f(g[0](*q), g[1](*q)) for q in at]
        cl = CLIPG(*cs)
        m = s.mask(j1, i1)
        A = AREAG(cl) * m
        A1, A2 = s.A1(simp(j1 * s.nx1 + i1)), s.A2(simp(j2 * s.nx2 + i2))
        return And(m > real(.5), PN(cl) > 0, A / If(A1 < A2, A1, A2) > THRESH), [A, z3.RealVal(0), z3.RealVal(0)]
    return finish(s, spec, slow, size, True, 0, lambda L, depth: [])


def finish(s, spec, slow, size, outer_mask, first, more):
    """four nested loops over the pairs: invariants and postconditions"""
    P = s.P
    o0, o1, p0, p1 = slow
    Fg, want = spec(*s.g)
    names = ("j1", "i1", "j2", "i2")
    pos = lambda v: s.pos(*[simp(v[n]) for n in slow])
    gpos = pos(dict(zip(names, s.g)))
    P.requires(s.pos(*[iv(0)] * 4) == 0)
    seen = set()

    def unfold(*at):
        """definition of Position around a point"""
        key = tuple(simp(t).get_id() for t in at)
        if P.eng.dry or key in seen:
            return
        seen.add(key)
        v = dict(zip(slow, at))
        F, _ = spec(*[v[n] for n in names])
        q = lambda *t: s.pos(*[iv(x) if isinstance(x, int) else simp(x) for x in t])
        a, b, c, d = at
        fact = P.eng.facts.append
        fact(q(a, b, c, d + 1) == q(a, b, c, d) + If(F, 1, 0))
        fact(q(a, b, c + 1, 0) == q(a, b, c, size[p1]))
        fact(q(a, b + 1, 0, 0) == (If(s.mask(a, b) > real(.5), q(a, b, size[p0], 0), q(a, b, 0, 0)) if outer_mask else q(a, b, size[p0], 0)))
        fact(q(a + 1, 0, 0, 0) == q(a, size[o1], 0, 0))
    unfold(*[dict(zip(names, s.g))[n] for n in slow])

    def inv(L, depth):
        cur = {n: L[n] for n in slow[:depth]}
        v = {n: cur.get(n, iv(0)) for n in slow}
        o = [v[n] for n in slow]
        unfold(*o)
        for q in range(depth):
            o2 = list(o)
            o2[q] = simp(o2[q] - 1)
            unfold(*o2)
        nx = L["nxgrid"]
        fs = []
        for d, n in enumerate(slow[:depth]):
            fs.append((n, And(0 <= cur[n], cur[n] <= size[n] if d == depth - 1 else cur[n] < size[n])))
        if outer_mask and depth > 2:
            fs.append(("mask", s.mask(L["j1"], L["i1"]) > real(.5)))
        for x, y in ((o1, o0),) if depth < 4 else ((o1, o0), (p1, p0)):
            if depth >= 2:
                s.flat(L[x], L[y], size[x], size[y])
                for a_, b_ in ((0, 0), (1, 0), (1, 1), (0, 1)):
                    s.flat(simp(L[x] + a_), simp(L[y] + b_), simp(size[x] + 1), simp(size[y] + 1))
        return fs + more(L, depth) + [
            ("number of records", nx == pos(v)), ("room", And(nx >= 0, nx <= s.MAX)),
            ("record of the pair", Implies(And(s.before(cur, slow), Fg), And(gpos >= 0, gpos < nx, s.record(L, gpos, s.g, want)))),
            ("each record names a pair", Implies(s.K < nx, s.valid(L, s.K)))]
    for d in range(1, 5):
        P.loop(d - 1 + first, inv=lambda L, d=d: inv(L, d))
    P.run()
    ending(s, pos({slow[0]: size[slow[0]], **{k: iv(0) for k in slow[1:]}}), Fg, gpos, want)
    return P


def ending(s, total, Fg, gpos, want):
    P, V, n = s.P, s.P.post, s.P.ret
    P.ensures("the number of records is the number of overlapping pairs", n == total)
    P.ensures("at most MAXXGRID records", And(n >= 0, n <= s.MAX))
    P.ensures("every overlapping pair has its record", Implies(Fg, And(gpos >= 0, gpos < n, s.record(V, gpos, s.g, want))))
    P.ensures("every record names a pair of cells", Implies(s.K < n, s.valid(V, s.K)))


def p_2d(order):
    """create_xgrid_2dx2d_*: neither grid has rectangular cells (one block: the library is built without OpenMP)"""
    def b():
        s = Pair("create_xgrid_2dx2d_order%d" % order, order)
        P = s.P
        P.eng.natdiv = P.eng.dryprune = True
        C = s.cells(0)
        nxy = simp(s.nx2 * s.ny2)

        def clip2(c):
            x1, y1, n1, x2, y2, n2, xo, yo = c.args
            t1 = s.G.poly(c, "fix", x1, y1, n1)
            c.require("at most eight vertices", And(n2 >= 0, n2 <= 8))
            v = [If(n2 > k, reads(c, p, k), 0) for p in (x2, y2) for k in range(8)]
            V = LoopCtx(c.eng, c.eng.frames[-1], c.st, c.st, 0)
            tag = CP(t1, n2, *v)
            want = cut(V["j1"], V["i1"], V["ij@2"])
            c.require("the source cell and the destination cell, moved to the same turn", tag == want)
            c.assume(tag == want)
            return s.G.out(c, want, (xo, yo))
        P.eng.contracts.update({"get_grid_area": C, "clip_2dx2d": clip2})
        CP = z3.Function("ClipPolygon", Z, Z, *([R] * 16), Z)
        g1, g2 = s.grid(1, False), s.grid(2, False)
        T2, LMIN, LMAX = z3.Function("Cell2", Z, Z), z3.Function("Cell2MinLat", Z, R), z3.Function("Cell2MaxLat", Z, R)
        PI, TPI = real(math.pi), real(2 * math.pi)
        n_, d_ = z3.Ints("ln ld")
        s.divmod = P.lemma("quotient and remainder", [n_, d_], Implies(And(n_ >= 0, d_ >= 1), And((n_ / d_) * d_ + n_ % d_ == n_, n_ / d_ >= 0, n_ % d_ >= 0, n_ % d_ < d_)))
        Y_ = z3.Int("lY")
        s.row = P.lemma("row of a cell", [n_, d_, Y_], Implies(And(n_ >= 0, d_ >= 1, n_ < d_ * Y_), n_ / d_ < Y_))
        a_, b_ = z3.Ints("la lb")
        s.cong = P.lemma("equal cells have equal indices", [n_, d_, a_, b_, Y_], Implies(And(n_ == a_, d_ == b_), n_ * Y_ + d_ == a_ * Y_ + b_))
        cells2 = set()

        def cell2(ij):
            """definition of cell ij of the destination grid"""
            ij = simp(ij)
            if P.eng.dry or ij.get_id() in cells2:
                return
            cells2.add(ij.get_id())
            j, i = simp(ij / s.nx2), simp(ij % s.nx2)
            xs, ys = quad(g2[0], j, i), quad(g2[1], j, i)
            P.eng.facts.append(And(T2(ij) == FIX(*xs, *ys, PI), LMIN(ij) == least(ys, lambda a, b: a < b), LMAX(ij) == least(ys, lambda a, b: a > b)))
            P.eng.facts.append(PN(T2(ij)) >= 0)
            s.divmod(ij, s.nx2)
            s.row(ij, s.nx2, s.ny2)
            s.flat(i, j, s.nx2, s.ny2)
            for a_, b_ in ((0, 0), (1, 0), (1, 1), (0, 1)):
                s.flat(simp(i + a_), simp(j + b_), simp(s.nx2 + 1), simp(s.ny2 + 1))

        CUT = z3.Function("Overlap", Z, Z, Z, Z)
        OV, WA, WX, WY = [z3.Function(n, Z, Z, Z, r) for n, r in (("IsPair", z3.BoolSort()), ("PairArea", R), ("PairLon", R), ("PairLat", R))]

        def cut(j1, i1, ij):
            return CUT(simp(j1), simp(i1), simp(ij))

        def spec(j1, i1, ij):
            xs, ys = quad(g1[0], j1, i1), quad(g1[1], j1, i1)
            t1, t2 = FIX(*xs, *ys, PI), T2(simp(ij))
            dx = AVGX(t2) - AVGX(t1)
            sh = If(dx < -PI, TPI, If(dx > PI, -TPI, z3.RealVal(0)))
            cl = cut(j1, i1, ij)
            P.eng.facts.append(cl == CP(t1, PN(t2), *[If(PN(t2) > k, PX(t2, iv(k)) + sh, 0) for k in range(8)], *[If(PN(t2) > k, PY(t2, iv(k)), 0) for k in range(8)]))
            m = s.mask(j1, i1)
            A = AREA(cl) * m
            A1, A2 = s.A1(simp(j1 * s.nx1 + i1)), s.A2(simp(ij))
            F = And(m > real(.5), Not(LMIN(simp(ij)) >= least(ys, lambda a, b: a > b)), Not(LMAX(simp(ij)) <= least(ys, lambda a, b: a < b)),
                    Not(MINX(t2) + sh >= MAXX(t1)), Not(MAXX(t2) + sh <= MINX(t1)), PN(cl) > 0, A / If(A1 < A2, A1, A2) > THRESH)
            k = tuple(simp(x) for x in (j1, i1, ij))
            W = [f(*k) for f in (WA, WX, WY)[:3 if order == 2 else 1]]
            P.eng.facts.append(And(OV(*k) == F, *[w == x for w, x in zip(W, [A, CLON(cl, AVGX(t1)), CLAT(cl)])]))
            return OV(*k), W
        gj1, gi1, gj2, gi2 = s.g
        gc = P.ghost("cell2")
        P.requires(0 <= gc, gc < nxy, gj2 == gc / s.nx2, gi2 == gc % s.nx2)
        cell2(gc)
        Fg, want = spec(gj1, gi1, gc)
        pos = z3.Function("Position", Z, Z, Z, Z)
        gpos = pos(gj1, gi1, gc)
        P.requires(pos(iv(0), iv(0), iv(0)) == 0)
        seen = set()

        def unfold(a, b, c):
            key = tuple(simp(t).get_id() for t in (a, b, c))
            if P.eng.dry or key in seen:
                return
            seen.add(key)
            F, _ = spec(a, b, c)
            q = lambda *t: pos(*[iv(x) if isinstance(x, int) else simp(x) for x in t])
            fact = P.eng.facts.append
            fact(q(a, b, c + 1) == q(a, b, c) + If(F, 1, 0))
            fact(q(a, b + 1, 0) == If(s.mask(a, b) > real(.5), q(a, b, nxy), q(a, b, 0)))
            fact(q(a + 1, 0, 0) == q(a, s.nx1, 0))
        unfold(gj1, gi1, gc)
        nn = z3.Int("qn")

        def lists(L, upto):
            """the lists of cells of the destination grid"""
            at = lambda name, k, ty=F64: L.at(L[name], k, ty)
            own = And(PN(T2(nn)) <= 8, at("lat_out_min_list", nn) == LMIN(nn), at("lat_out_max_list", nn) == LMAX(nn), at("n2_list", nn, I32) == PN(T2(nn)),
                      at("lon_out_min_list", nn) == MINX(T2(nn)), at("lon_out_max_list", nn) == MAXX(T2(nn)), at("lon_out_avg", nn) == AVGX(T2(nn)))
            vs = And(*[Implies(PN(T2(nn)) > k, And(at("lon_out_list", simp(nn * 8 + k)) == PX(T2(nn), iv(k)), at("lat_out_list", simp(nn * 8 + k)) == PY(T2(nn), iv(k)))) for k in range(8)])
            return [("lists", forall([nn], Implies(And(0 <= nn, nn < upto), own), [T2(nn)])), ("vertex lists", forall([nn], Implies(And(0 <= nn, nn < upto), vs), [T2(nn)]))]

        def inv_lists(L):
            ij = L["ij"]
            cell2(ij)
            cell2(simp(ij - 1))
            return [("ij", And(0 <= ij, ij <= nxy))] + lists(L, ij)

        def inv_store(L):
            ij, l = L["ij"], L["l"]
            t = T2(ij)
            at = lambda name, k, ty=F64: L.at(L[name], k, ty)
            return [("ij", And(0 <= ij, ij < nxy)), ("n", L["n"] == ij), ("l", And(l >= 0, l <= L["n2_in"], L["n2_in"] == PN(t), PN(t) <= 8))] + lists(L, ij) + [
                ("vertices", And(*[Implies(l > k, And(at("lon_out_list", simp(ij * 8 + k)) == PX(t, iv(k)), at("lat_out_list", simp(ij * 8 + k)) == PY(t, iv(k)))) for k in range(8)]))]

        def inv(L, depth):
            names = ("j1", "i1", "ij@2")
            size = (s.ny1, s.nx1, nxy)
            cur = [L[n] for n in names[:depth]]
            v = cur + [iv(0)] * (3 - depth)
            unfold(*v)
            for q in range(depth):
                w = list(v)
                w[q] = simp(w[q] - 1)
                unfold(*w)
            if depth == 3:
                cell2(cur[2])
                cell2(simp(cur[2] - 1))
            fs = [(names[d], And(0 <= cur[d], cur[d] <= size[d] if d == depth - 1 else cur[d] < size[d])) for d in range(depth)]
            nx = L.at(L["pnxgrid"], iv(0), I32)
            if depth >= 2:
                s.flat(cur[1], cur[0], s.nx1, s.ny1)
                s.cong(cur[0], cur[1], gj1, gi1, s.nx1)
                s.cong(cur[0], simp(cur[1] - 1), gj1, gi1, s.nx1)
                for a_, b_ in ((0, 0), (1, 0), (1, 1), (0, 1)):
                    s.flat(simp(cur[1] + a_), simp(cur[0] + b_), simp(s.nx1 + 1), simp(s.ny1 + 1))
            if depth == 3:
                xs, ys = quad(g1[0], *cur[:2]), quad(g1[1], *cur[:2])
                t = FIX(*xs, *ys, PI)
                fs += [("mask", s.mask(*cur[:2]) > real(.5)), ("source cell", And(L.eng.frames[-1] is not None, L["n1_in"] == PN(t), L["lat_in_min"] == least(ys, lambda a, b: a < b), L["lat_in_max"] == least(ys, lambda a, b: a > b),
                                                                            L["lon_in_min"] == MINX(t), L["lon_in_max"] == MAXX(t), L["lon_in_avg"] == AVGX(t)))]
            g = list(zip((gj1, gi1, gc), cur))
            done = z3.BoolVal(False)
            for a, c in reversed(g):
                done = Or(a < c, And(a == c, done))
            return fs + [("number of records", nx == pos(*[simp(x) for x in v])), ("room", And(nx >= 0, nx <= s.MAX)),
                         ("record of the pair", Implies(And(done, Fg), And(gpos >= 0, gpos < nx, s.record(L, gpos, s.g, want)))),
                         ("each record names a pair", Implies(s.K < nx, s.valid(L, s.K)))]

        def inv_copy(L):
            ij, l = L["ij@2"], L["l@2"]
            t = T2(ij)
            return [("l", And(l >= 0, l <= L["n2_in@2"], L["n2_in@2"] == PN(t)))] + [("vertices", And(*[Implies(l > k, And(L.at(L["x2_in@2"], iv(k), F64) == PX(t, iv(k)), L.at(L["y2_in@2"], iv(k), F64) == PY(t, iv(k)))) for k in range(8)]))]

        def inv_shift(d):
            def f(L):
                ij, l = L["ij@2"], L["l@2"]
                t = T2(ij)
                return [("l", And(l >= 0, l <= L["n2_in@2"], L["n2_in@2"] == PN(t)))] + [("vertices", And(*[Implies(PN(t) > k, L.at(L["x2_in@2"], iv(k), F64) == PX(t, iv(k)) + If(l > k, d, z3.RealVal(0))) for k in range(8)]))]
            return f
        for q in (0, 1, 4):
            P.loop(q, unroll=1)
        P.loop(2, inv=inv_lists)
        P.loop(3, inv=inv_store)
        for d in (1, 2, 3):
            P.loop(4 + d, inv=lambda L, d=d: inv(L, d))
        P.loop(8, inv=inv_copy)
        P.loop(9, inv=inv_shift(TPI))
        P.loop(10, inv=inv_shift(-TPI))
        P.run()
        ending(s, pos(s.ny1, iv(0), iv(0)), Fg, gpos, want)
        return P
    return b


def p_area(func):
    """get_grid_area*: each cell has the area of its own four corners"""
    def b():
        great = "great" in func
        tab = {}
        P = Proof(XG, func, contracts=tab)
        G = Geometry(P, None)
        F = {"get_grid_area": AREA, "get_grid_area_dimensionless": AREAD, "get_grid_area_no_adjust": AREA0}[func]

        def area(c):
            x, y, n = c.args
            if func == "get_grid_area_no_adjust":
                c.require("four corners", n == 4)
                return QA(*[reads(c, p, k) for p in (x, y) for k in range(4)])
            return F(G.poly(c, "fix", x, y, n))
        QA = z3.Function("AreaOfQuad", *([R] * 9))
        P.eng.contracts.update({"fix_lon": G.fix_lon, "poly_area": area, "poly_area_dimensionless": area, "poly_area_no_adjust": area})
        a = P.a
        for n in ("nlon", "nlat"):
            P.elem(a[n], I32)
            P.length(a[n], 1)
        nx, ny = P.pre.at(a["nlon"], iv(0), I32), P.pre.at(a["nlat"], iv(0), I32)
        P.requires(nx >= 1, ny >= 1)
        P.requires((nx + 1) * (ny + 1) < 2 ** 31, nx * ny < 2 ** 31)
        for n in ("lon", "lat"):
            P.elem(a[n], F64)
            P.length(a[n], simp((nx + 1) * (ny + 1)))
        P.elem(a["area"], F64)
        P.length(a["area"], simp(nx * ny))
        at = lambda n: (lambda j, i: P.pre.at(a[n], simp(j * (nx + 1) + i), F64))
        x, y, X, Y, x2, y2 = z3.Ints("lx ly lX lY lx2 ly2")
        flat = P.lemma("flattened index", [x, y, X, Y], Implies(And(0 <= x, x < X, 0 <= y, y < Y), And(y * X + x >= 0, y * X + x < X * Y)))
        uniq = P.lemma("flattened index is unique", [x, y, x2, y2, X], Implies(And(0 <= x, x < X, 0 <= x2, x2 < X, y * X + x == y2 * X + x2), And(x == x2, y == y2)))
        gj, gi = P.ghost("j"), P.ghost("i")
        P.requires(0 <= gj, gj < ny, 0 <= gi, gi < nx)
        flat(gi, gj, nx, ny)
        xs, ys = quad(at("lon"), gj, gi), quad(at("lat"), gj, gi)
        want = QA(*xs, *ys) if func == "get_grid_area_no_adjust" else F(FIX(*xs, *ys, real(math.pi)))
        k = simp(gj * nx + gi)

        def inv(L, depth):
            j, i = L["j"], L["i"] if depth == 2 else iv(0)
            for q in (i, simp(i - 1)):
                uniq(q, j, gi, gj, nx)
            flat(i, j, nx, ny)
            for a_, b_ in ((0, 0), (1, 0), (1, 1), (0, 1)):
                flat(simp(i + a_), simp(j + b_), simp(nx + 1), simp(ny + 1))
            fs = [("row", And(0 <= j, j <= ny if depth == 1 else j < ny))] + ([("column", And(0 <= i, i <= nx))] if depth == 2 else [])
            return fs + [("area", Implies(Or(gj < j, And(gj == j, gi < i)), L.at(a["area"], k, F64) == want))]
        P.loop(0, inv=lambda L: inv(L, 1))
        P.loop(1, inv=lambda L: inv(L, 2))
        P.run()
        P.ensures("each cell has the area of its own polygon", P.post.at(a["area"], k, F64) == want)
        return P
    return b


def p_clip():
    """clip: what is left of a polygon in a box"""
    P = Proof(XG, "clip")
    a = P.a
    n, ll_lon, ll_lat, ur_lon, ur_lat = [a[k] for k in ("n_in", "ll_lon", "ll_lat", "ur_lon", "ur_lat")]
    for k in ("lon_in", "lat_in"):
        P.elem(a[k], F64)
        P.length(a[k], n)
    for k in ("lon_out", "lat_out"):
        P.elem(a[k], F64)
        P.length(a[k], 50)
    P.requires(n >= 1, n <= 10, ll_lon <= ur_lon, ll_lat <= ur_lat)
    g = lambda k: P.ghost(k, "real")
    x0, x1, y0, y1 = g("x0"), g("x1"), g("y0"), g("y1")
    IN = z3.Bool("all_inside")
    q = z3.Int("q")
    X, Y = [(lambda i, k=k: P.pre.at(a[k], i, F64)) for k in ("lon_in", "lat_in")]
    rng = lambda f: Implies(And(0 <= q, q < n), f)
    ext = And(x0 <= X(q), X(q) <= x1, y0 <= Y(q), Y(q) <= y1, Implies(IN, And(ll_lon <= X(q), X(q) <= ur_lon, ll_lat <= Y(q), Y(q) <= ur_lat)))
    P.requires(forall([q], rng(ext), [X(q)]), forall([q], rng(ext), [Y(q)]))
    p_, q_, B, u, v, lo, hi = z3.Reals("lp lq lB lu lv llo lhi")
    t = z3.Real("lt")
    P.lemma("a weighted mean lies between", [t, u, v, lo, hi], Implies(And(0 <= t, t <= 1, lo <= u, u <= hi, lo <= v, v <= hi), And(lo <= u + t * (v - u), u + t * (v - u) <= hi)))
    P.lemma("the weight of a crossing point", [p_, q_, B], Implies(And(p_ != q_, Or(And(p_ <= B, B <= q_), And(q_ <= B, B <= p_))), And(0 <= (B - p_) / (q_ - p_), (B - p_) / (q_ - p_) <= 1)))
    P.lemma("crossing point as a weighted mean", [p_, q_, B, u, v], Implies(p_ != q_, u + (B - p_) * (v - u) / (q_ - p_) == u + ((B - p_) / (q_ - p_)) * (v - u)))
    body = Implies(And(p_ != q_, Or(And(p_ <= B, B <= q_), And(q_ <= B, B <= p_)), lo <= u, u <= hi, lo <= v, v <= hi),
                   And(lo <= u + (B - p_) * (v - u) / (q_ - p_), u + (B - p_) * (v - u) / (q_ - p_) <= hi))
    between = P.lemma("a crossing point lies between its ends", [p_, q_, B, u, v, lo, hi], body)

    def stage(k):
        left, low = k < 2, k in (0, 2)
        bound = (ll_lon, ur_lon, ll_lat, ur_lat)[k]
        srcn = (("lon_in", "lat_in"), ("x_tmp", "y_tmp"), ("lon_out", "lat_out"), ("x_tmp", "y_tmp"))[k]
        dstn = (("x_tmp", "y_tmp"), ("lon_out", "lat_out"), ("x_tmp", "y_tmp"), ("lon_out", "lat_out"))[k]

        def inv(L):
            rd = lambda nm, i: L.at(L[nm], i, F64)
            i, o, m = L["i_in"], L["i_out"], (n if k == 0 else L["n_out"])
            ins = lambda x, y: (x >= bound if k == 0 else x <= bound if k == 1 else y >= bound if k == 2 else y <= bound)
            last = If(i == 0, m - 1, i - 1)
            lx, ly = L["x_last"], L["y_last"]
            sl = L["inside_last"]
            s0 = If(ins(rd(srcn[0], simp(m - 1)), rd(srcn[1], simp(m - 1))), 1, 0)
            cx, cy = rd(srcn[0], i), rd(srcn[1], i)
            xlo, xhi, ylo, yhi = x0, x1, y0, y1
            for (p, c) in (((lx, ly), (cx, cy)),):
                if left:
                    between(p[0], c[0], bound, p[1], c[1], y0, y1)
                else:
                    between(p[1], c[1], bound, p[0], c[0], x0, x1)
                    between(p[1], c[1], bound, p[0], c[0], ll_lon, ur_lon)
            own = lambda x, y: And(x0 <= x, x <= x1, y0 <= y, y <= y1, *( [x >= ll_lon] if k >= 0 else []), *([x <= ur_lon] if k >= 1 else []), *([y >= ll_lat] if k >= 2 else []), *([y <= ur_lat] if k >= 3 else []))
            src = lambda x, y: And(x0 <= x, x <= x1, y0 <= y, y <= y1, *([x >= ll_lon] if k >= 1 else []), *([x <= ur_lon] if k >= 2 else []), *([y >= ll_lat] if k >= 3 else []))
            fs = [("position", And(0 <= i, i <= m, m >= 1)), ("last point", And(lx == rd(srcn[0], last), ly == rd(srcn[1], last), src(lx, ly))),
                  ("side of the last point", sl == If(ins(lx, ly), 1, 0)),
                  ("number of vertices", And(o >= 0, 2 * o <= 3 * i + sl - s0))]
            if k:
                fs.append(("vertices so far", m <= (0, 15, 22, 33)[k]))
                f = And(src(rd(srcn[0], q), rd(srcn[1], q)))
                for pt in (rd(srcn[0], q), rd(srcn[1], q)):
                    fs.append(("vertices of the last step", forall([q], Implies(And(0 <= q, q < m), f), [pt])))
                for pt in (rd(srcn[0], q), rd(srcn[1], q)):
                    fs.append(("unchanged inside (input)", Implies(IN, And(m == n, forall([q], Implies(And(0 <= q, q < m), And(rd(srcn[0], q) == X(q), rd(srcn[1], q) == Y(q))), [pt])))))
            for pt in (rd(dstn[0], q), rd(dstn[1], q)):
                fs.append(("vertices are inside", forall([q], Implies(And(0 <= q, q < o), own(rd(dstn[0], q), rd(dstn[1], q))), [pt])))
            for pt in (rd(dstn[0], q), rd(dstn[1], q)):
                fs.append(("unchanged inside", Implies(IN, And(o == i, sl == 1, forall([q], Implies(And(0 <= q, q < o), And(rd(dstn[0], q) == X(q), rd(dstn[1], q) == Y(q))), [pt])))))
            return fs
        return inv
    for k in range(4):
        P.loop(k, inv=stage(k))
    P.run()
    gv = P.ghost("vertex")
    ox, oy = [P.post.at(a[k], gv, F64) for k in ("lon_out", "lat_out")]
    ok = And(0 <= gv, gv < P.ret)
    P.ensures("at most fifty vertices", And(P.ret >= 0, P.ret <= 50))
    P.ensures("the vertices lie in the box", Implies(ok, And(ll_lon <= ox, ox <= ur_lon, ll_lat <= oy, oy <= ur_lat)))
    P.ensures("the vertices lie within the extent of the polygon", Implies(ok, And(x0 <= ox, ox <= x1, y0 <= oy, oy <= y1)))
    P.ensures("a polygon inside the box is kept as it is", Implies(IN, And(P.ret == n, Implies(ok, And(ox == X(gv), oy == Y(gv))))))
    return P


def p_ext(func):
    """minval_double, maxval_double, avgval_double"""
    def b():
        P = Proof(MU, func)
        a, n = P.a["data"], P.a["size"]
        P.elem(a, F64)
        P.length(a, n)
        P.requires(n >= 1)
        D = lambda i: P.pre.at(a, i, F64)
        g, q = P.ghost("k"), z3.Int("q")
        if func == "avgval_double":
            S = z3.Function("Sum", Z, R)
            P.requires(S(iv(0)) == 0)

            def inv(L):
                i = L["n"]
                for t in (i, simp(i - 1)):
                    if not P.eng.dry:
                        P.eng.facts.append(S(simp(t + 1)) == S(t) + D(t))
                return [("n", And(0 <= i, i <= n)), ("sum", L["avgval"] == S(i))]
            P.loop(0, inv=inv)
            P.run()
            P.ensures("the mean", P.ret * z3.ToReal(n) == S(n))
            return P
        le = (lambda x, y: x <= y) if func == "minval_double" else (lambda x, y: x >= y)
        w = P.ghost("witness")

        def inv(L):
            i, m = L["n"], L["minval" if func == "minval_double" else "maxval"]
            return [("n", And(1 <= i, i <= n)), ("not beyond any value", forall([q], Implies(And(0 <= q, q < i), le(m, D(q))), [D(q)])), ("a value", z3.Exists([q], And(0 <= q, q < i, m == D(q))))]
        P.loop(0, inv=inv)
        P.run()
        P.ensures("not beyond any value", Implies(And(0 <= g, g < n), le(P.ret, D(g))))
        P.ensures("one of the values", z3.Exists([q], And(0 <= q, q < n, P.ret == D(q))))
        return P
    return b


def p_xyz():
    P = Proof(MU, "latlon2xyz")
    a, n = P.a, P.a["size"]
    for k in ("lon", "lat", "x", "y", "z"):
        P.elem(a[k], F64)
        P.length(a[k], n)
    P.requires(n >= 0)
    g = P.ghost("k")
    P.requires(0 <= g, g < n)
    sin, cos = [z3.Function("m_" + f, R, R) for f in ("sin", "cos")]
    lon, lat = P.pre.at(a["lon"], g, F64), P.pre.at(a["lat"], g, F64)
    own = lambda V: And(V.at(a["x"], g, F64) == cos(lat) * cos(lon), V.at(a["y"], g, F64) == cos(lat) * sin(lon), V.at(a["z"], g, F64) == sin(lat))
    P.loop(0, inv=lambda L: [("n", L["n"] >= 0), ("point", Implies(g < L["n"], own(L)))])
    P.run()
    P.ensures("the point on the sphere", own(P.post))
    return P


def p_vtx(func):
    def b():
        P = Proof(MU, func)
        a, n = P.a, P.a["n"]
        ins = func == "insert_vtx"
        at_ = a["n_ins" if ins else "n_del"]
        for k in ("x", "y"):
            P.elem(a[k], F64)
            P.length(a[k], n + 1 if ins else n)
        P.requires(n >= (0 if ins else 1), 0 <= at_, at_ <= n if ins else at_ < n)
        g = P.ghost("k")
        P.requires(0 <= g)
        old = lambda k, i: P.pre.at(a[k], simp(i), F64)
        old1 = [old(k, i) for k in ("x", "y") for i in (g, g - 1, g + 1)]
        V = lambda L, k: L.at(a[k], g, F64)
        if ins:
            P.loop(0, inv=lambda L: [("i", And(L["i"] >= at_ - 1, L["i"] <= n - 1))] + [("moved", forall([Q], Implies(And(0 <= Q, Q <= n), L.at(a[k], Q, F64) == If(Q > L["i"] + 1, old(k, Q - 1), old(k, Q))), [L.at(a[k], Q, F64)])) for k in ("x", "y")])
        else:
            P.loop(0, inv=lambda L: [("i", And(L["n_del"] >= at_, L["n_del"] <= n - 1))] + [("moved", forall([Q], Implies(And(0 <= Q, Q < n), L.at(a[k], Q, F64) == If(And(Q >= at_, Q < L["n_del"]), old(k, Q + 1), old(k, Q))), [L.at(a[k], Q, F64)])) for k in ("x", "y")])
        Q = z3.Int("q")
        P.run()
        if ins:
            P.ensures("one more", P.ret == n + 1)
            for k, v in (("x", a["lon_in"]), ("y", a["lat_in"])):
                P.ensures("inserted " + k, Implies(g <= n, V(P.post, k) == If(g < at_, old(k, g), If(g == at_, v, old(k, g - 1)))))
        else:
            P.ensures("one less", P.ret == n - 1)
            for k in ("x", "y"):
                P.ensures("deleted " + k, Implies(g < n - 1, V(P.post, k) == If(g < at_, old(k, g), old(k, g + 1))))
        return P
    return b


def p_fix():
    """fix_lon: poles are paired, longitudes are moved by whole turns"""
    tab = {}
    P = Proof(MU, "fix_lon", contracts=tab)
    a, n = P.a, P.a["n"]
    P.eng.natdiv = True
    P.requires(n >= 1, n <= 24)
    for k in ("x", "y"):
        P.elem(a[k], F64)
        P.length(a[k], simp(2 * n + 2))
    PI, TPI, HPI = real(math.pi), real(2 * math.pi), real(math.pi / 2)
    q = z3.Int("q")
    X, Y = [(lambda i, k=k: P.pre.at(a[k], i, F64)) for k in ("x", "y")]
    NP = z3.Bool("away_from_the_poles")
    absr = lambda v: If(v >= 0, v, -v)
    prev = lambda i: If(i == 0, n - 1, i - 1)
    d = lambda i: X(i) - X(prev(i))
    away = And(absr(Y(q)) < HPI - z3.RealVal("1/100000"), absr(d(q) + PI) >= z3.RealVal("1/1000000000"), absr(d(q) - PI) >= z3.RealVal("1/1000000000"))
    for pt in (X(q), Y(q)):
        P.requires(Implies(NP, forall([q], Implies(And(0 <= q, q < n), away), [pt])))
    i_, m_ = z3.Ints("li lm")
    before = P.lemma("the vertex before", [i_, m_], Implies(And(0 <= i_, i_ < m_), (i_ + m_ - 1) % m_ == If(i_ == 0, m_ - 1, i_ - 1)))
    after = P.lemma("the vertex after", [i_, m_], Implies(And(0 <= i_, i_ < m_), (i_ + 1) % m_ == If(i_ + 1 == m_, 0, i_ + 1)))

    def vtx(ins):
        def f(c):
            x, y, m, at_ = c.args[:4]
            c.require("the polygon's own arrays", And(same(x, a["x"]), same(y, a["y"])))
            c.require("a vertex of the polygon", And(0 <= at_, at_ <= m if ins else at_ < m))
            c.require("room for a vertex", m + 1 <= 2 * n + 2)
            c.require("poles only", Not(NP))
            for p, v in zip((x, y), c.args[4:] if ins else (None, None)):
                old = lambda i, p=p: c.at(p, simp(i), F64)
                if ins:
                    c.bulk(p, F64, lambda *ix: And(ix[-1] >= at_, ix[-1] <= m), lambda *ix, p=p, v=v, f=snap(c, p): If(ix[-1] == at_, v, f(ix[-1] - 1)))
                else:
                    c.bulk(p, F64, lambda *ix: And(ix[-1] >= at_, ix[-1] < m - 1), lambda *ix, p=p, f=snap(c, p): f(ix[-1] + 1))
            return simp(m + 1) if ins else simp(m - 1)
        return f

    def snap(c, p):
        st = c.st.copy()
        return lambda i: c.eng.load(st, Ptr(p.region, p.path, p.idx[:-1] + (simp(i),)), F64, chk=False)
    P.eng.contracts.update({"insert_vtx": vtx(True), "delete_vtx": vtx(False), "printf": lambda c: None, "v_print": lambda c: None, "poly_area": lambda c: fresh("area", R)})
    rd = lambda L, k, i: L.at(a[k], i, F64)
    keep = lambda L: [("untouched away from the poles", Implies(NP, And(L["nn"] == n, *[forall([q], Implies(And(0 <= q, q < n), And(rd(L, "x", q) == X(q), rd(L, "y", q) == Y(q))), [pt]) for pt in (rd(L, "x", q), rd(L, "y", q))])))]

    def mods(L):
        for i in (L["i"], simp(L["i"] - 1)):
            before(i, L["nn"])
            after(i, L["nn"])

    def inv0(L):
        return [("i", L["i"] >= 0)]

    def inv1(L):
        mods(L)
        return [("vertices", And(L["i"] >= 0, L["i"] <= L["nn"], L["nn"] >= 0, 2 * L["nn"] <= 2 * n + L["i"]))] + keep(L)

    def inv2(L):
        mods(L)
        return [("vertices", And(L["i"] >= 0, L["nn"] >= 0, L["nn"] <= 2 * n))] + keep(L)

    def turn(k, new, old):
        return Or(*[new == old + t * TPI for t in range(-k, k + 1)])

    def inv4(L):
        i, nn = L["i"], L["nn"]
        f = lambda pt: forall([q], Implies(And(0 <= q, q < n), And(If(q < i, turn(1, rd(L, "x", q), X(q)), rd(L, "x", q) == X(q)), rd(L, "y", q) == Y(q))), [pt])
        return [("vertices", And(i >= 1, nn >= 1, i <= nn, nn <= 2 * n + 2)), ("whole turns", Implies(NP, And(nn == n, f(rd(L, "x", q)), f(rd(L, "y", q)))))]

    def inv5(s_):
        def g(L):
            i, nn = L["i"], L["nn"]
            f = lambda pt: forall([q], Implies(And(0 <= q, q < n), And(turn(2, rd(L, "x", q), X(q)), Implies(q >= i, turn(1, rd(L, "x", q), X(q))), rd(L, "y", q) == Y(q))), [pt])
            return [("vertices", And(i >= 0, nn >= 1, nn <= 2 * n + 2)), ("whole turns", Implies(NP, And(nn == n, f(rd(L, "x", q)), f(rd(L, "y", q)))))]
        return g
    for k, f in enumerate((inv0, inv1, inv2, inv2, inv4, inv5(1), inv5(-1))):
        P.loop(k, inv=f)
    P.run()
    gv = P.ghost("vertex")
    P.ensures("at most two vertices for each one, and two at a pole", And(P.ret >= 0, P.ret <= 2 * n + 2))
    P.ensures("away from the poles each vertex is moved by whole turns only", Implies(And(NP, 0 <= gv, gv < n), And(P.ret == n, rd(P.post, "y", gv) == Y(gv), turn(2, rd(P.post, "x", gv), X(gv)))))
    return P


def p_side(func):
    """areas as sums of the contributions of the sides"""
    def b():
        P = Proof(MU, func, contracts={"printf": lambda c: None})
        P.eng.natdiv = True
        a, n = P.a, P.a["n"]
        for k in ("x", "y"):
            P.elem(a[k], F64)
            P.length(a[k], n)
        P.requires(n >= 1)
        PI, HPI, R2 = real(math.pi), real(math.pi / 2), real(6371000.0) * real(6371000.0)
        sin, cos = [z3.Function("m_" + f, R, R) for f in ("sin", "cos")]
        X, Y = [(lambda i, k=k: P.pre.at(a[k], i, F64)) for k in ("x", "y")]
        absr = lambda v: If(v >= 0, v, -v)
        S = z3.Function("SumOfSides", Z, R)
        P.requires(S(iv(0)) == 0)
        i_, m_ = z3.Ints("li lm")
        after = P.lemma("the vertex after", [i_, m_], Implies(And(0 <= i_, i_ < m_), (i_ + 1) % m_ == If(i_ + 1 == m_, 0, i_ + 1)))
        SMALL = real(1.e-10)

        def side(i):
            ip = If(i + 1 == n, iv(0), i + 1)
            d0, lat1, lat2 = X(ip) - X(i), Y(ip), Y(i)
            dx = If(d0 > PI, d0 - 2 * PI, If(d0 < -PI, d0 + 2 * PI, d0))
            mid, h = (lat1 + lat2) / 2, (lat1 - lat2) / 2
            flat = absr(lat1 - lat2) < SMALL
            if func == "poly_area_no_adjust":
                return If(d0 == 0, 0, If(flat, d0 * sin(mid), -(d0 * (cos(lat1) - cos(lat2)) / (lat1 - lat2))))
            v = If(flat, dx * sin(mid), dx * sin(mid) * (sin(h) / h))
            if func == "poly_area_main":
                v = If(Or(absr(dx + PI) < SMALL, absr(dx - PI) < SMALL), -PI, v)
            return v

        def inv(L):
            i = L["i"]
            for t in (i, simp(i - 1)):
                after(t, n)
                if not P.eng.dry:
                    P.eng.facts.append(S(simp(t + 1)) == S(t) - side(t))
            return [("i", And(0 <= i, i <= n)), ("sum over the sides", L["area"] == S(i))]
        P.loop(0, inv=inv)
        P.run()
        T = S(n)
        w = {"poly_area_main": absr(T) * R2, "poly_area_no_adjust": T * R2, "poly_area_dimensionless": absr(T) / (4 * PI)}[func]
        P.ensures("the line integral over the sides", P.ret == w)
        return P
    return b


def proofs(tier):
    L = [(f, p_box(f)) for f in ("create_xgrid_1dx2d_order1", "create_xgrid_1dx2d_order2", "create_xgrid_2dx1d_order1", "create_xgrid_2dx1d_order2")]
    L += [(f, p_area(f)) for f in ("get_grid_area", "get_grid_area_dimensionless", "get_grid_area_no_adjust")] + [("clip", p_clip), ("latlon2xyz", p_xyz), ("fix_lon", p_fix)]
    L += [(f, p_ext(f)) for f in ("minval_double", "maxval_double", "avgval_double")] + [(f, p_vtx(f)) for f in ("insert_vtx", "delete_vtx")]
    L += [(f, p_side(f)) for f in ("poly_area_main", "poly_area_no_adjust", "poly_area_dimensionless")]
    return L + [("create_xgrid_great_circle", p_great), ("create_xgrid_2dx2d_order1", p_2d(1)), ("create_xgrid_2dx2d_order2", p_2d(2))]


RAD = 6371000.0
H = math.pi / 2


def o_side(x1, y1, x2, y2):
    """integral of -sin(lat) d(lon) along a straight side"""
    h = .5 * (y2 - y1)
    return -(x2 - x1) * math.sin(.5 * (y1 + y2)) * (math.sin(h) / h if abs(h) > 1e-9 else 1.0)


def o_area(p):
    return abs(sum(o_side(*p[k - 1], *p[k]) for k in range(len(p)))) * RAD * RAD


def o_ctrlat(p):
    """integral of lat over the polygon: sides give the integral of -(cos + lat sin) d(lon)"""
    t = 0.0
    for k in range(len(p)):
        (x1, y1), (x2, y2) = p[k - 1], p[k]
        # Gauss-Legendre along the side
        for w, u in zip(GW, GX_):
            y = y1 + u * (y2 - y1)
            t -= w * (x2 - x1) * (math.cos(y) + y * math.sin(y))
    return t * RAD * RAD


def o_ctrlon(p, c):
    """trapezoidal rule along the sides, as documented (exact for sides along meridians and parallels)"""
    t = 0.0
    f = lambda y: .5 * (math.cos(y) * math.sin(y) + y)
    for k in range(len(p)):
        (x1, y1), (x2, y2) = p[k - 1], p[k]
        t -= (x2 - x1) * ((x1 - c) * f(y1) + (x2 - c) * f(y2)) / 2
    return t * RAD * RAD


_g = np.polynomial.legendre.leggauss(12)
GX_, GW = [(x + 1) / 2 for x in _g[0]], [w / 2 for w in _g[1]]


def o_cut(p, a, b, n):
    """the part of polygon p with a*x+b*y >= n"""
    out = []
    for k in range(len(p)):
        u, v = p[k - 1], p[k]
        du, dv = a * u[0] + b * u[1] - n, a * v[0] + b * v[1] - n
        if (du >= 0) != (dv >= 0):
            t = du / (du - dv)
            out.append((u[0] + t * (v[0] - u[0]), u[1] + t * (v[1] - u[1])))
        if dv >= 0:
            out.append(v)
    return out


def o_inter(p, q):
    """intersection of convex polygons, q counter-clockwise"""
    for k in range(len(q)):
        (x1, y1), (x2, y2) = q[k - 1], q[k]
        if (x1, y1) == (x2, y2):
            continue
        p = o_cut(p, -(y2 - y1), x2 - x1, -(y2 - y1) * x1 + (x2 - x1) * y1)
        if not p:
            return []
    return p


def o_gc(p, q):
    """intersection of convex spherical polygons (great-circle sides, both given counter-clockwise seen from outside)"""
    p = [np.array(v) for v in p]
    for k in range(len(q)):
        nrm = np.cross(q[k - 1], q[k])
        out = []
        for m in range(len(p)):
            u, v = p[m - 1], p[m]
            du, dv = float(u @ nrm), float(v @ nrm)
            if (du >= 0) != (dv >= 0):
                w = u * abs(dv) + v * abs(du)
                out.append(w / np.linalg.norm(w))
            if dv >= 0:
                out.append(v)
        p = out
        if not p:
            return []
    return p


def o_gcarea(p):
    """spherical polygon area by the solid angles of its triangles"""
    t = 0.0
    for k in range(1, len(p) - 1):
        a, b, c = p[0], p[k], p[k + 1]
        t += 2 * math.atan2(float(a @ np.cross(b, c)), 1 + float(a @ b) + float(b @ c) + float(c @ a))
    return abs(t) * RAD * RAD


def search(S):
    from engine import search as H_
    so = H_.link("libxgrid.so", H_.fenced([XG, MU]) + H_.objs(["lib/libfrencutils/" + f for f in H_.LIBC if f not in ("create_xgrid.c", "mosaic_util.c")]), shared=True)
    lib = ctypes.CDLL(so)
    dbl = lambda x: np.ascontiguousarray(np.array(x, dtype=np.float64))
    ptr = lambda a: a.ctypes.data_as(ctypes.c_void_p)
    I = lambda v: ctypes.byref(ctypes.c_int(v))
    for f in ("poly_area", "poly_ctrlat", "poly_ctrlon", "poly_area_no_adjust", "poly_area_dimensionless", "minval_double", "maxval_double", "avgval_double", "great_circle_area"):
        getattr(lib, f).restype = ctypes.c_double
    lib.set_maxxgrid.argtypes = [ctypes.c_size_t]

    def axis(r, n, lo, hi):
        w = [r.uniform(.2, 1) if r.random() < .8 else 1.0 for _ in range(n)]
        t = np.concatenate([[0], np.cumsum(w)])
        return list(lo + (hi - lo) * t / t[-1])

    def shape(r, kind):
        """(nx, ny, lon corners, lat corners) in radians; kind 1: rectangular axes"""
        if kind == 3 and r.random() < .15:
            # one cell with a corner at a pole
            a, w, s = r.uniform(0, 6), r.uniform(.2, .7), r.choice([1, -1])
            y = s * r.uniform(1.2, 1.5)
            p = [(a, y), (a + s * w, y - s * r.uniform(.05, .2)), (a + 2 * s * w, y), (r.uniform(0, 6), s * H)]
            k = r.randrange(4)
            p = p[k:] + p[:k]
            return 1, 1, [[p[0][0], p[1][0]], [p[3][0], p[2][0]]], [[p[0][1], p[1][1]], [p[3][1], p[2][1]]]
        nx, ny = r.randint(1, 4), r.randint(1, 4)
        gl = r.random() < .2
        if gl:
            nx, ny = r.randint(5, 7), r.randint(2, 4)
            x0 = r.choice([0.0, 0.0, -math.pi, .3])
            xs, ys = axis(r, nx, x0, x0 + 2 * math.pi), axis(r, ny, -H, H)
            if max(np.diff(xs)) > 1.45:
                xs = list(np.linspace(x0, x0 + 2 * math.pi, nx + 1))
        else:
            x0, y0 = r.choice([r.uniform(0, 6), 0.0, 6.0, -.5, 2.8]), r.choice([r.uniform(-1.2, .8), 0.0])
            xs, ys = axis(r, nx, x0, x0 + r.uniform(.1, .9)), axis(r, ny, y0, min(y0 + r.uniform(.1, .6), H))
        if kind == 1:
            return nx, ny, xs, ys
        X, Y = np.meshgrid(xs, ys)
        if kind == 3 and not gl:
            a = r.uniform(-.6, .6)
            X, Y = xs[0] + (X - xs[0]) * math.cos(a) - (Y - ys[0]) * math.sin(a), ys[0] + (X - xs[0]) * math.sin(a) + (Y - ys[0]) * math.cos(a)
            Y = np.clip(Y, -1.5, 1.5)
            e = .1 * min(min(np.diff(xs)), min(np.diff(ys)))
            X, Y = X + np.array([[r.uniform(-e, e) for _ in row] for row in X]), Y + np.array([[r.uniform(-e, e) for _ in row] for row in Y])
            Y = np.clip(Y, -1.5, 1.5)
        if r.random() < .3:
            X = X + r.choice([2 * math.pi, -2 * math.pi])
        return nx, ny, X.tolist(), Y.tolist()

    def cell(g, j, i):
        nx, ny, X, Y = g
        if not isinstance(X[0], list):
            return [(X[i], Y[j]), (X[i + 1], Y[j]), (X[i + 1], Y[j + 1]), (X[i], Y[j + 1])]
        return [(X[j][i], Y[j][i]), (X[j][i + 1], Y[j][i + 1]), (X[j + 1][i + 1], Y[j + 1][i + 1]), (X[j + 1][i], Y[j + 1][i])]

    def full(p):
        """a single vertex at a pole stands for the two points where its sides meet the pole"""
        n = len(p)
        at = [abs(abs(y) - H) < 1e-9 for x, y in p]
        if sum(at) != 1:
            return p
        out = []
        for k in range(n):
            out += [(p[k - 1][0], p[k][1]), (p[(k + 1) % n][0], p[k][1])] if at[k] else [p[k]]
        return out

    def convex(p):
        s_ = [(p[k - 1][0] - p[k - 2][0]) * (p[k][1] - p[k - 1][1]) - (p[k - 1][1] - p[k - 2][1]) * (p[k][0] - p[k - 1][0]) for k in range(len(p))]
        return all(x > 1e-9 for x in s_)

    def round_(p):
        """convex on the sphere too, with margin"""
        v = [np.array(o_xyz(*z)) for z in p]
        return all(float(np.cross(v[k - 2], v[k - 1]) @ v[k]) > 1e-7 for k in range(len(v)))

    def gen(r, k):
        kind = r.choice(["1dx2d", "2dx1d", "2dx2d", "2dx2d", "great"])
        rect = r.random() < .4
        g1 = shape(r, 1 if kind == "1dx2d" else 2 if rect else 3)
        g2 = shape(r, 1 if kind == "2dx1d" else 2 if rect else 3)
        if r.random() < .7:
            # put them on top of each other
            def org(g):
                return (g[2][0], g[3][0]) if not isinstance(g[2][0], list) else (g[2][0][0], g[3][0][0])
            (xa, ya), (xb, yb) = org(g1), org(g2)
            dx, dy = xa - xb + r.uniform(-.3, .3), ya - yb + r.uniform(-.2, .2)
            if r.random() < .2:
                dx, dy = xa - xb, ya - yb
            if max(np.abs(np.array(g2[3])).max(), np.abs(np.array(g1[3])).max()) > 1.57:
                dy = 0.0
            X, Y = np.array(g2[2]) + dx, np.array(g2[3]) + dy
            if Y.max() <= H and Y.min() >= -H:
                g2 = (g2[0], g2[1], X.tolist(), Y.tolist())
        order = 2 if kind == "great" else r.choice([1, 2])
        mask = [r.choice([0.0, .5, .51, 1.0, 1.0, 1.0, .75]) for _ in range(g1[0] * g1[1])]
        if r.random() < .5:
            mask = [1.0] * len(mask)
        return kind, order, g1, g2, mask, r.choice([0, 0, 1, 2])

    def usable(c):
        kind, order, g1, g2, mask, lim = c
        for g in (g1, g2):
            for j in range(g[1]):
                for i in range(g[0]):
                    p = full(cell(g, j, i))
                    if not convex(p) or max(x for x, y in p) - min(x for x, y in p) > (1.5 if kind == "2dx2d" else 2.6):
                        return False
                    if kind == "great" and (not round_(p) or max(math.dist(o_xyz(*u), o_xyz(*v)) for u in p for v in p) > .5):
                        return False
                    if not -1.9 * math.pi < sum(x for x, y in p) / len(p) < 3.9 * math.pi:
                        return False
                    if sum(abs(abs(y) - H) < 1e-5 for x, y in p) not in (0, 2):
                        return False
        return True

    def call(c, maxx, arrs=None):
        kind, order, g1, g2, mask, lim = c
        lib.set_maxxgrid(maxx)
        n = maxx
        ints = arrs[0] if arrs else [np.full(n + 4, -7, dtype=np.int32) for _ in range(4)]
        ds = arrs[1] if arrs else [np.full(n + 4, -7.0) for _ in range(3)]
        name = "create_xgrid_great_circle" if kind == "great" else "create_xgrid_%s_order%d" % (kind, order)
        A = [dbl(v).ravel() for v in (g1[2], g1[3], g2[2], g2[3], mask)]
        nout = getattr(lib, name)(I(g1[0]), I(g1[1]), I(g2[0]), I(g2[1]), *[ptr(v) for v in A], *[ptr(v) for v in ints], *[ptr(v) for v in ds[:3 if order == 2 else 1]])
        return nout, ints, ds

    def area_of(p, kind):
        return o_gcarea([np.array(o_xyz(*v)) for v in p]) if kind == "great" else o_area(p)

    def o_xyz(x, y):
        return (math.cos(y) * math.cos(x), math.cos(y) * math.sin(x), math.sin(y))

    def expected(c):
        """(i1,j1,i2,j2) -> (area, clon, clat, ratio)"""
        kind, order, g1, g2, mask, lim = c
        out = []
        for j1 in range(g1[1]):
            for i1 in range(g1[0]):
                p = full(cell(g1, j1, i1))
                for j2 in range(g2[1]):
                    for i2 in range(g2[0]):
                        q = full(cell(g2, j2, i2))
                        m = mask[j1 * g1[0] + i1]
                        if kind == "great":
                            w = o_gc([o_xyz(*v) for v in p], [np.array(o_xyz(*v)) for v in q])
                            A = o_gcarea(w) if w else 0.0
                            small = min(area_of(p, kind), area_of(q, kind))
                            cx = cy = 0.0
                            # both polygons' sides are great circles only approximately at the poles of the grid
                        else:
                            mp, mq = sum(v[0] for v in p) / len(p), sum(v[0] for v in q) / len(q)
                            t = 2 * math.pi * round((mp - mq) / (2 * math.pi))
                            q = [(x + t, y) for x, y in q]
                            w = o_inter(p, q)
                            A = o_area(w) if w else 0.0
                            small = min(o_area(p), o_area(q))
                            cx = cy = 0.0
                            if order == 2 and A:
                                # the longitudes are relative to the mean of the polygon that is clipped
                                ref = mp if kind != "1dx2d" else mq + t
                                cx, cy = o_ctrlon(w, ref), o_ctrlat(w)
                        out.append(((i1, j1, i2, j2), A * m, cx, cy, A * m / small if small else 0.0, m))
        return out

    def turns(c):
        """two grids that meet only in one turn (a cell wider than half a turn has no nearest one)"""
        kind, order, g1, g2, mask, lim = c
        mean = lambda p: sum(v[0] for v in p) / len(p)
        ms = [[mean(full(cell(g, j, i))) for j in range(g[1]) for i in range(g[0])] for g in (g1, g2)]
        for a in ms[0]:
            for b in ms[1]:
                f = ((a - b) / (2 * math.pi)) % 1.0
                if abs(f - .5) < .02 or abs(a - b) > 2.9 * math.pi:
                    return False
        return True

    def generic(c):
        """no two sides of the two grids lie on nearly the same great circle"""
        N = []
        for g in c[2:4]:
            n = []
            for j in range(g[1]):
                for i in range(g[0]):
                    v = [np.array(o_xyz(*z)) for z in cell(g, j, i)]
                    n += [np.cross(v[k - 1], v[k]) for k in range(4)]
            N.append(np.array([x / np.linalg.norm(x) for x in n]))
        return float(np.abs(N[0] @ N[1].T).max()) < 1 - 2e-4

    def polar(c):
        return any(abs(abs(y) - H) < 1e-5 for g in c[2:4] for j in range(g[1]) for i in range(g[0]) for x, y in cell(g, j, i))

    def run(c):
        kind, order, g1, g2, mask, lim = c
        if not usable(c) or not turns(c) or (kind == "great" and (polar(c) or not generic(c))):
            return None
        E = expected(c)
        tol = 2e-6 if kind == "great" else 1e-7
        n, ints, ds = call(c, 4000)
        got = {}
        if n < 0 or n > 4000:
            return "%d records" % n
        order_of = []
        for k in range(n):
            key = tuple(int(ints[q][k]) for q in range(4))
            if key in got:
                return "pair %r has two records" % (key,)
            got[key] = (ds[0][k], ds[1][k], ds[2][k])
            order_of.append(key)
        for q in range(4):
            if (ints[q][n:] != -7).any() or (ds[0][n:] != -7).any():
                return "elements after the last record were written"
        for key, A, cx, cy, ratio, m in E:
            small = A / ratio if ratio else 1.0
            if m <= .5:
                if key in got:
                    return "masked source cell of pair %r has a record" % (key,)
                continue
            if ratio > 1e-4 and key not in got:
                return "pair %r overlaps in %g (%g of the smaller cell) but has no record" % (key, A, ratio)
            if ratio < 1e-9 and key in got and not (kind == "great" and got[key][0] < 1e-5 * min(area_of(cell(g1, key[1], key[0]), kind), area_of(cell(g2, key[3], key[2]), kind))):
                return "pair %r does not overlap but has a record with area %r" % (key, got[key][0])
            if key in got:
                a, x, y = got[key]
                if ratio > 1e-4 and abs(a - A) > tol * small:
                    return "pair %r: area %.10g, the overlap is %.10g (smaller cell %.10g)" % (key, a, A, small)
                if order == 2 and kind == "great" and (x != 0 or y != 0):
                    return "pair %r: centroid" % (key,)
                if order == 2 and kind != "great" and ratio > 1e-3:
                    if abs(y - cy) > 1e-5 * A + 1e-9 * small:
                        return "pair %r: latitude integral %.10g, the overlap has %.10g (area %g)" % (key, y, cy, A)
                    d = (x - cx) / A / (2 * math.pi)
                    if abs(x - cx) > 1e-5 * A:
                        return "pair %r: longitude integral %.10g, the overlap has %.10g (area %g)" % (key, x, cx, A)
        for key in got:
            if not (0 <= key[0] < g1[0] and 0 <= key[1] < g1[1] and 0 <= key[2] < g2[0] and 0 <= key[3] < g2[1]):
                return "record of a pair %r that does not exist" % (key,)
        if lim and n >= 2:
            return limit(c, n, got)

    def limit(c, n, got):
        """a limit below (lim 1) or just at (lim 2) the number of records"""
        import mmap
        import os
        lim = c[5]
        strict = c[0] == "2dx2d"
        maxx = n - 1 if lim == 1 else n + (1 if strict else 0)
        buf = mmap.mmap(-1, 4096 * 64)
        raw = np.frombuffer(buf, dtype=np.float64)
        raw[:] = -7.0
        ints = [raw[q * 1024:(q + 1) * 1024].view(np.int32) for q in range(4)]
        for v in ints:
            v[:] = -7
        ds = [raw[(4 + q) * 1024:(5 + q) * 1024] for q in range(3)]
        pid = os.fork()
        if pid == 0:
            try:
                os._exit(0 if call(c, maxx, (ints, ds))[0] == n else 3)
            finally:
                os._exit(9)
        st = os.waitpid(pid, 0)[1]
        st = os.waitstatus_to_exitcode(st)
        for v in ints + ds:
            if (v[maxx:] != -7).any():
                return "with MAXXGRID=%d and %d overlapping pairs, elements past the end of the arrays were written" % (maxx, n)
        if lim == 1 and st in (0, 3, 9):
            return "with MAXXGRID=%d and %d overlapping pairs there was no error (status %d)" % (maxx, n, st)
        if lim == 2 and st != 0:
            return "with MAXXGRID=%d and %d overlapping pairs it ended with status %d" % (maxx, n, st)
    one = lambda x0, x1, y0, y1, n: (n, n, list(np.linspace(x0, x1, n + 1)), list(np.linspace(y0, y1, n + 1)))
    two = lambda g: (g[0], g[1], np.meshgrid(g[2], g[3])[0].tolist(), np.meshgrid(g[2], g[3])[1].tolist())
    A, B = one(0, 1, -.3, .3, 3), one(.1, 1.2, -.2, .5, 2)
    C_ = one(6.1, 6.9, .2, .8, 3)
    first = []
    for o in (1, 2):
        for lim in (0, 1, 2):
            for u, v in ((A, B), (B, A), (A, C_), (C_, A)):
                first += [("1dx2d", o, u, two(v), [1.0] * (u[0] * u[1]), lim), ("2dx1d", o, two(u), v, [.9] * (u[0] * u[1]), lim), ("2dx2d", o, two(u), two(v), [1.0] * (u[0] * u[1]), lim)]
                if o == 2:
                    first.append(("great", 2, two(u), two(v), [1.0] * (u[0] * u[1]), lim))
    S.parallel("exchange grids", gen, run, S.secs(12, 200), first=first, rule="grids of up to 6x4 cells, rectangular and skewed, regional and global, shifted by whole turns, masks, MAXXGRID at and below the number of records; all pairs compared with an independent intersection")

    # ---- areas
    def g_area(r, k):
        return shape(r, r.choice([2, 3]))

    def r_area(g):
        nx, ny, X, Y = g
        n = nx * ny
        for f in ("get_grid_area", "get_grid_area_dimensionless", "get_grid_area_no_adjust", "get_grid_great_circle_area"):
            out = np.full(n + 2, -7.0)
            getattr(lib, f)(I(nx), I(ny), ptr(dbl(X).ravel()), ptr(dbl(Y).ravel()), ptr(out))
            if (out[n:] != -7).any():
                return "%s wrote past the end" % f
            for j in range(ny):
                for i in range(nx):
                    p = cell(g, j, i)
                    if full(p) != p and "no_adjust" in f:
                        continue
                    p = full(p)
                    if not convex(p) or max(x for x, y in p) - min(x for x, y in p) > 2.6:
                        continue
                    if "great" in f:
                        if any(abs(abs(y) - H) < 1e-5 for x, y in p) or not round_(p):
                            continue
                        w = o_gcarea([np.array(o_xyz(*v)) for v in p])
                    else:
                        w = o_area(p)
                    if f == "get_grid_area_dimensionless":
                        w /= 4 * math.pi * RAD * RAD
                    if abs(out[j * nx + i] - w) > 1e-6 * w + (1e3 if "great" in f else 0):
                        return "%s: cell (%d,%d) has %.12g, its corners give %.12g" % (f, i, j, out[j * nx + i], w)
    S.parallel("cell areas", g_area, r_area, S.secs(3), rule="grids of up to 6x4 cells, with and without poles")

    # ---- single polygons
    def g_poly(r, k):
        n = r.choice([3, 4, 4, 4, 5, 6, 8])
        cx, cy, s_ = r.uniform(0, 6.2), r.uniform(-1.2, 1.2), r.choice([.05, .2, .3])
        def poly(n, cx, cy):
            a = sorted(r.uniform(0, 2 * math.pi) for _ in range(n))
            return [(cx + s_ * math.cos(t), cy + s_ * math.sin(t)) for t in a]
        p = poly(n, cx, cy)
        q = poly(r.choice([3, 4, 4, 6, 8]), cx + r.uniform(-s_, s_), cy + r.uniform(-s_, s_))
        b = (cx + r.uniform(-s_, s_), cy + r.uniform(-s_, s_), r.uniform(.01, 1.5 * s_), r.uniform(.01, 1.5 * s_))
        if r.random() < .2:
            b = (cx - 2 * s_, cy - 2 * s_, 4 * s_, 4 * s_)
        return p, q, b

    def r_poly(c):
        p, q, b = c
        if not convex(p) or not convex(q) or max(abs(y) for x, y in p + q) > 1.5:
            return None
        x0, y0, x1, y1 = b[0], b[1], b[0] + b[2], b[1] + b[3]
        X, Y = dbl([v[0] for v in p]), dbl([v[1] for v in p])
        ox, oy = np.full(50, np.nan), np.full(50, np.nan)
        D = ctypes.c_double
        n = lib.clip(ptr(X), ptr(Y), len(p), D(x0), D(y0), D(x1), D(y1), ptr(ox), ptr(oy))
        box = [(x0, y0), (x1, y0), (x1, y1), (x0, y1)]
        w = o_inter(p, box)
        A = o_area(w) if w else 0.0
        got = o_area([(ox[k], oy[k]) for k in range(n)]) if n else 0.0
        if abs(got - A) > 1e-9 * o_area(p) + 1:
            return "clip: the part in the box has area %.12g, returned polygon has %.12g" % (A, got)
        for k in range(n):
            if not (x0 - 1e-12 <= ox[k] <= x1 + 1e-12 and y0 - 1e-12 <= oy[k] <= y1 + 1e-12):
                return "clip: vertex %d is outside the box" % k
        if n and abs(lib.poly_area(ptr(ox), ptr(oy), n) - A) > 1e-9 * o_area(p) + 1:
            return "poly_area: %.12g for a polygon of %.12g" % (lib.poly_area(ptr(ox), ptr(oy), n), A)
        X2, Y2 = dbl([v[0] for v in q]), dbl([v[1] for v in q])
        n = lib.clip_2dx2d(ptr(X), ptr(Y), len(p), ptr(X2), ptr(Y2), len(q), ptr(ox), ptr(oy))
        w = o_inter(p, q)
        A = o_area(w) if w else 0.0
        got = o_area([(ox[k], oy[k]) for k in range(n)]) if n else 0.0
        if abs(got - A) > 1e-8 * o_area(p) + 1:
            return "clip_2dx2d: the overlap has area %.12g, returned polygon has %.12g" % (A, got)
        n = len(p)
        m = o_ctrlat(p)
        if abs(lib.poly_ctrlat(ptr(X), ptr(Y), n) - m) > 1e-6 * o_area(p):
            return "poly_ctrlat: %.12g, the polygon has %.12g" % (lib.poly_ctrlat(ptr(X), ptr(Y), n), m)
        ref = sum(X) / n
        m = o_ctrlon(p, ref)
        lib.poly_ctrlon.argtypes = [ctypes.c_void_p, ctypes.c_void_p, ctypes.c_int, ctypes.c_double]
        if abs(lib.poly_ctrlon(ptr(X), ptr(Y), n, ref) - m) > 1e-6 * o_area(p):
            return "poly_ctrlon: %.12g, the polygon has %.12g" % (lib.poly_ctrlon(ptr(X), ptr(Y), n, ref), m)
    S.parallel("polygons", g_poly, r_poly, S.secs(3), rule="convex polygons of 3 to 8 vertices against boxes and polygons")

    # ---- fix_lon
    def g_fix(r, k):
        cx, cy, s_ = r.uniform(-6, 12), r.uniform(-1.2, 1.2), r.uniform(.05, .4)
        p = [(cx - s_, cy - s_ / 3), (cx + s_, cy - s_ / 4), (cx + s_ * .9, cy + s_ / 3), (cx - s_ * .8, cy + s_ / 3)]
        w = r.choice([1, -1]) * 2 * math.pi
        p = [(x + r.choice([0, 0, w]), y) for x, y in p]
        t = r.choice([0, math.pi, r.uniform(-3, 9), cx])
        pole = r.choice([0, 0, 1, 2, -1, -2])
        if pole:
            sg = 1 if pole > 0 else -1
            y = sg * 1.3
            p = [(cx - s_, y), (cx + s_, y), (cx + s_, sg * H), (cx - s_, sg * H)] if abs(pole) == 1 else [(cx - s_, y), (cx, y - .1 * sg), (cx + s_, y), (r.uniform(0, 6), sg * H)]
        return p, t, pole, cx

    def r_fix(c):
        p, t, pole, cx = c
        X, Y = np.full(12, np.nan), np.full(12, np.nan)
        X[:4], Y[:4] = [v[0] for v in p], [v[1] for v in p]
        n = lib.fix_lon(ptr(X), ptr(Y), 4, ctypes.c_double(t))
        if abs(pole) == 2:
            if n != 5:
                return "fix_lon: a single pole point gives %d vertices" % n
        elif n != 4:
            return "fix_lon: %d vertices for a quadrilateral" % n
        turn = lambda d: abs(d / (2 * math.pi) - round(d / (2 * math.pi))) < 1e-9
        if abs(pole) < 2:
            for k in range(4):
                if abs(Y[k] - p[k][1]) > 0 or not turn(X[k] - p[k][0]):
                    return "fix_lon: vertex %d (%r) became (%r, %r)" % (k, p[k], X[k], Y[k])
        else:
            if [round(v, 12) for v in Y[:5]] != [round(v, 12) for v in (p[0][1], p[1][1], p[2][1], p[3][1], p[3][1])] or not turn(X[3] - p[2][0]) or not turn(X[4] - p[0][0]):
                return "fix_lon: the pole point of %r is not paired: %r %r" % (p, X[:5], Y[:5])
        for k in range(1, n):
            if abs(X[k] - X[k - 1]) > math.pi + 1e-9:
                return "fix_lon: vertices %d and %d are more than half a turn apart" % (k - 1, k)
        mean = sum(X[:n]) / n
        first = p[0][0]
        # the mean is at most half a turn from the target if one turn was enough
        if math.pi + 1e-9 < abs(mean - t) and abs(first - t) < 2 * math.pi:
            return "fix_lon: mean longitude %r is more than half a turn from the target %r" % (mean, t)
    S.parallel("fix_lon", g_fix, r_fix, S.secs(2), rule="quadrilaterals with vertices in different turns, at and away from the poles")
