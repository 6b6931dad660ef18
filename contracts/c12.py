"""C12: generated grids follow their prescription"""
import ctypes
import math
import random
from fractions import Fraction
import numpy as np
import z3
from z3 import Implies, If, Or, Not
from engine.sym import AttachError, LoopCtx
from .common import *
from .c08 import same

TU = "lib/libfrencutils/tool_util.c"
LL = "src/make-hgrid/create_lonlat_grid.c"
VG = "src/make-vgrid/create_vgrid.c"
MU = "lib/libfrencutils/mosaic_util.c"
R, Z = z3.RealSort(), z3.IntSort()
ASSUMPTIONS = ["regions of a monotonic grid line have at least one cell; regions of a legacy grid line are at least half a cell wide, resolutions are positive",
               "the number of points of a grid fits an int", "a spectral grid has an even number of latitudes (an odd number leaves the equator without a latitude)"]
TRUSTED = ["malloc succeeds", "sin, cos, tan, atan, atan2, acos, asin, fmod as mathematical functions", "printf, strcmp", "mpp_error does not return"]
real = lambda x: z3.RealVal(str(Fraction(x)))
D2R, R2D, RAD, PI = real(math.pi / 180), real(180 / math.pi), real(6371000.0), real(math.pi)
absr = lambda v: If(v >= 0, v, -v)
m_cos, m_sin = z3.Function("m_cos", R, R), z3.Function("m_sin", R, R)
toR = z3.ToReal


def die(c):
    c.noreturn = True


def center(P, p):
    return [P.eng.streq(p, s) for s in ("none", "t_cell", "c_cell")]


class Line:
    """prescription of a grid line by the number of cells of each region: N(i) counts model cells before bound i"""
    def __init__(s, P, nb, npts, refine, tag=""):
        s.P, s.nb, s.refine = P, nb, refine
        s.N = z3.Function("cells_before" + tag, Z, Z)
        s.npts = npts

    def unfold(s, i):
        s.P.eng.facts.append(s.N(simp(i + 1)) == s.N(i) + s.npts(i) / s.refine)


def p_bound(mode):
    """compute_grid_bound for one of the three kinds of centering"""
    def b():
        ref = 1 if mode == 0 else 2
        T = z3.Function("spline_value", Z, R)
        st = {}

        def spline(c):
            n1, n2, g1, g2, d1, d2 = c.args
            A = lambda p, i: c.at(p, i, F64)
            q = z3.Int("q")
            k = fresh("k", Z)
            c.require("one value for each bound and for each line", And(n1 == nb, n2 == N(nb - 1) + 1, same(d1, a["bnds"])))
            c.require("knot", Implies(And(0 <= k, k < nb), A(g1, k) == toR(N(k) + 1)))
            c.require("position", Implies(And(0 <= k, k < n2), A(g2, k) == toR(k + 1)))
            c.bulk(d2, F64, lambda *ix: And(ix[-1] >= d2.idx[-1], ix[-1] < d2.idx[-1] + n2), lambda *ix: T(simp(ix[-1] - d2.idx[-1])))
            # contract of cubic_spline_sp (proved in C06): knots are reproduced; between knots no over- or undershoot
            for j in (m0, iv(0), simp(nb - 1)):
                c.assume_all(T(N(j)) == B(j))
            st["tmp"] = d2
        P = Proof(TU, "compute_grid_bound", contracts={"mpp_error": die, "cubic_spline_sp": spline})
        a = P.a
        nb = a["nb"]
        P.elem(a["bnds"], F64)
        P.elem(a["npts"], I32)
        P.elem(a["grid_size"], I32)
        P.length(a["bnds"], nb)
        P.length(a["npts"], nb - 1)
        P.length(a["grid_size"], 1)
        c3 = center(P, a["center"])
        P.requires(c3[mode])
        NP = lambda i: P.pre.at(a["npts"], i, I32)
        B = lambda i: P.pre.at(a["bnds"], i, F64)
        X = Line(P, nb, NP, ref)
        N = X.N
        P.requires(nb >= 2, N(iv(0)) == 0)
        q = z3.Int("q")
        P.requires(forall([q], Implies(And(0 <= q, q < nb - 1), NP(q) >= ref), [NP(q)]))
        m0, g = P.ghost("bound"), P.ghost("line")
        P.requires(0 <= m0, m0 < nb, 0 <= g)

        def inv0(L):
            i = L["i"]
            if not P.eng.dry:
                X.unfold(simp(i - 1))
                X.unfold(i)
            g1 = lambda x: L.at(L["grid1"], x, F64)
            return [("i", And(1 <= i, i <= nb)), ("n", L["n"] == N(i - 1)), ("n counts", N(i - 1) >= i - 1), ("refine", L["refine"] == ref),
                    ("growing", forall([q], Implies(And(0 <= q, q < i), And(N(q) >= 0, N(q) <= N(simp(i - 1)))), [N(q)])),
                    ("knots", forall([q], Implies(And(0 <= q, q < i), g1(q) == toR(N(q) + 1)), [g1(q)])),
                    ("divisible", forall([q], Implies(And(0 <= q, q < i - 1), NP(q) % ref == 0), [NP(q)]))]
        P.loop(0, inv=inv0)
        frame = lambda L: [("n", L["n"] == N(nb - 1)), ("np", L["np"] == N(nb - 1) + 1), ("size", L.at(a["grid_size"], None, I32) == ref * N(nb - 1)), ("n>0", N(nb - 1) >= nb - 1)]
        pos = lambda L: forall([q], Implies(And(0 <= q, q < L["i"]), L.at(L["grid2"], q, F64) == toR(q + 1)), [L.at(L["grid2"], q, F64)])
        P.loop(1, inv=lambda L: frame(L) + [("i", And(0 <= L["i"], L["i"] <= L["np"])), ("positions", pos(L))])
        G = lambda L, x: L.at(L["grid"], x, F64)
        n = N(nb - 1)
        mids = real(0.5)
        if mode == 0:
            P.loop(6, inv=lambda L: frame(L) + [("i", And(0 <= L["i"], L["i"] <= L["np"])), ("lines", forall([q], Implies(And(0 <= q, q < L["i"]), G(L, q) == T(q)), [G(L, q)]))])
        elif mode == 1:
            lines = lambda L, hi: [("line", Implies(And(g <= n, g < hi), G(L, 2 * g) == T(g))), ("next line", Implies(And(g + 1 <= n, g + 1 < hi), G(L, 2 * g + 2) == T(g + 1))),
                                   ("bound", Implies(N(m0) < hi, G(L, 2 * N(m0)) == B(m0)))]
            P.loop(4, inv=lambda L: frame(L) + [("i", And(0 <= L["i"], L["i"] <= L["np"]))] + lines(L, L["i"]))
            P.loop(5, inv=lambda L: frame(L) + [("i", And(0 <= L["i"], L["i"] <= n))] + lines(L, n + 1) + [("middle", Implies(g < L["i"], G(L, 2 * g + 1) == mids * (T(g) + T(g + 1))))])
        else:
            cen = lambda L, hi: [("centre %d" % k, Implies(And(g + k >= 0, g + k < hi), G(L, simp(2 * (g + k) + 1)) == mids * (T(simp(g + k)) + T(simp(g + k + 1))))) for k in (-1, 0)]
            allc = lambda L, hi: [("centres", forall([q], Implies(And(0 <= q, q < 2 * hi, q % 2 == 1), G(L, q) == mids * (T(q / 2) + T(q / 2 + 1))), [G(L, q)]))]
            P.loop(2, inv=lambda L: frame(L) + [("i", And(0 <= L["i"], L["i"] <= n))] + allc(L, L["i"]))
            P.loop(3, inv=lambda L: frame(L) + [("i", And(1 <= L["i"], L["i"] <= n)), ("first", G(L, iv(0)) == B(iv(0)))] + allc(L, n) +
                   [("edge", Implies(And(1 <= g, g < L["i"]), G(L, 2 * g) == mids * (G(L, 2 * g - 1) + G(L, 2 * g + 1))))])
        P.run()
        post = P.post
        r = P.ret
        O = lambda x: post.at(r, x, F64)
        size = post.at(a["grid_size"], None, I32)
        # sums of the cell counts: refine*N(i) is the number of lines before bound i
        P.ensures("number of cells is the sum over the regions", size == ref * N(nb - 1))
        P.ensures("counts of regions are whole cells", forall([q], Implies(And(0 <= q, q < nb - 1), NP(q) % ref == 0), [NP(q)]))
        if mode < 2:
            P.ensures("bounds are grid lines at their places", O(ref * N(m0)) == B(m0))
        if mode == 1:
            P.ensures("centre of a cell is midway between its sides", Implies(g < n, O(2 * g + 1) == mids * (O(2 * g) + O(2 * g + 2))))
        if mode == 2:
            P.ensures("ends are the outer bounds", And(O(iv(0)) == B(iv(0)), O(2 * n) == B(nb - 1)))
            P.ensures("centres are midway between spline lines", Implies(g < n, O(2 * g + 1) == mids * (T(g) + T(g + 1))))
            P.ensures("sides are midway between centres", Implies(And(1 <= g, g < n), O(2 * g) == mids * (O(2 * g - 1) + O(2 * g + 1))))
        return P
    return b


Rnd = z3.Function("m_round", R, Z)


def c_round(c):
    r = Rnd(c.args[0])
    c.assume_all(And(toR(r) - c.args[0] <= real(0.5), c.args[0] - toR(r) <= real(0.5)))
    return toR(r)


class Legacy:
    """prescription of a grid line by the resolution at each bound"""
    def __init__(s, P, nb, bnds, dbnds, stretch=None, tag=""):
        s.P, s.nb = P, nb
        s.B, s.D = bnds, dbnds
        s.right = lambda l: If(l == nb - 2, stretch * s.D(l + 1), s.D(l + 1)) if stretch is not None else s.D(l + 1)
        s.S = z3.Function("cells_before" + tag, Z, Z)
        s.K, s.F = z3.Int("stretched_cells" + tag), z3.Function("stretched_sum" + tag, Z, R)
        s.stretched = (lambda l: And(stretch != 1, l == nb - 2)) if stretch is not None else (lambda l: z3.BoolVal(False))
        x, y, h = z3.Reals("lx ly lh")
        s.div = P.lemma("division", [x, y, h], Implies(And(h > 0, y == x / h, 2 * x > h), 2 * y > 1))

    def avg(s, l):
        return real(0.5) * (s.D(l) + s.right(l))

    def chg(s, l):
        return s.right(l) - s.D(l)

    def wid(s, l):
        return absr(s.B(l + 1) - s.B(l))

    def an(s, l):
        return s.wid(l) / s.avg(l)

    def whole(s, l):
        return Rnd(s.an(l))

    def cells(s, l):
        return If(s.stretched(l), s.K, s.whole(l))

    def start(s):
        """the last region, when stretched, has as many cells as fit into it, and holds at least one"""
        l = simp(s.nb - 2)
        return [s.F(iv(0)) == real(0.5) * s.D(l) - real(0.5) * s.D(simp(l + 1)), s.K >= 1]

    def fit(s, l, k):
        if not s.P.eng.dry:
            w, lim = s.width(l, k, True), s.wid(l) * (1 + real(1e-5))
            s.P.eng.facts.append(Implies(And(k >= 0, s.stretched(l)), And(s.F(simp(k + 1)) == s.F(k) + w, Implies(k < s.K, s.F(k) + w <= lim), Implies(k == s.K, s.F(k) + w > lim))))

    def ok(s, l):
        return And(s.D(l) > 0, s.D(l + 1) > 0, s.right(l) > 0, 2 * s.wid(l) > s.avg(l))

    def unfold(s, l):
        if not s.P.eng.dry:
            s.P.eng.facts.append(Implies(And(0 <= l, l < s.nb - 1), And(s.S(simp(l + 1)) == s.S(l) + s.cells(l), s.ok(l), toR(s.whole(l)) - s.an(l) <= real(0.5), s.an(l) - toR(s.whole(l)) <= real(0.5))))
            s.div(s.wid(l), s.an(l), s.avg(l))

    def width(s, l, i, corner):
        return s.avg(l) - real(0.5) * s.chg(l) * m_cos((PI / toR(s.whole(l))) * (toR(i + 1) if corner else toR(i) + real(0.5)))


def p_legacy(mode):
    def b():
        P = Proof(TU, "compute_grid_bound_legacy", contracts={"mpp_error": die, "round": c_round, "llvm.round.f64": c_round, "mpp_pe": lambda c: iv(0), "mpp_root_pe": lambda c: iv(0)})
        a = P.a
        nb, stretch = a["nb"], a["stretch"]
        for k in ("bnds", "dbnds"):
            P.elem(a[k], F64)
            P.length(a[k], nb)
        P.elem(a["grid_size"], I32)
        P.length(a["grid_size"], 1)
        c3 = center(P, a["center"])
        P.requires(c3[mode] if mode == 1 else Not(c3[1]))
        X = Legacy(P, nb, lambda i: P.pre.at(a["bnds"], i, F64), lambda i: P.pre.at(a["dbnds"], i, F64), stretch)
        S = X.S
        P.requires(nb >= 2, S(iv(0)) == 0, stretch > 0, *X.start())
        l0, i0 = P.ghost("region"), P.ghost("cell")
        P.requires(0 <= l0, l0 < nb - 1, 0 <= i0, i0 < X.cells(l0))
        X.unfold(l0)
        k0 = S(l0) + i0
        W = X.width(l0, i0, mode == 2)
        q = z3.Int("q")
        delta = lambda L: L.at(L["vla"], k0, F64)
        grow = lambda l: forall([q], Implies(And(0 <= q, q <= l), And(S(q) >= 0, S(q) <= S(l))), [S(q)])

        def regions(L, l):
            for x in (l, simp(l - 1)):
                X.unfold(x)
            return [("l", And(0 <= l, l <= nb - 1)), ("growing", grow(l)), ("width", Implies(l > l0, delta(L) == W)), ("refine", L["refine"] == 2), ("num<=max", L["num"] <= 5000), ("maxlen", L["maxlen"] == 5000),
                    ("after l0", Implies(l > l0, S(simp(l0 + 1)) <= S(l)))]

        def inv0(L):
            return regions(L, L["l"]) + [("num", L["num"] == S(L["l"]))]

        def inner(n):
            def inv(L):
                l = L["l"]
                vals = And(L["avg_res"] == X.avg(l), L["chg_res"] == X.chg(l), L["an"] == X.an(l), L["ncells"] == X.whole(l))
                o = regions(L, l) + [("in range", l < nb - 1), ("values", vals), ("num", L["num"] == S(l) + L[n]), ("i", And(0 <= L["i"], L["i"] == L[n])),
                                     ("this region", Implies(And(l == l0, i0 < L[n]), delta(L) == W))]
                if mode == 1:
                    o.append(("not past the region", L["i"] <= X.cells(l)))
                else:
                    X.fit(l, L["n"])
                    o += [("tol", L["tol"] == real(1e-5)), ("at most", L["i"] <= 100000), ("wid", L["wid"] == X.wid(l)), ("as many as fit", Implies(X.stretched(l), And(L["sum"] == X.F(L["n"]), L["n"] <= X.K)))]
                return o
            return inv
        P.loop(0, inv=inv0)
        G = lambda L, x: L.at(L["grid"], simp(x), F64)
        n = S(nb - 1)
        frame = lambda L: [("num", L["num"] == n), ("size", L.at(a["grid_size"], None, I32) == 2 * n), ("width", delta(L) == W), ("first", G(L, iv(0)) == X.B(iv(0))), ("i", L["i"] >= 0), ("some", And(n >= 1, k0 < n, k0 >= 0))]
        half = real(0.5)
        if mode == 1:
            P.loop(LP[0], inv=inner("i"))
            P.loop(LP[1], inv=lambda L: frame(L) + [("i<=n", L["i"] <= n), ("done", Implies(k0 < L["i"], And(G(L, 2 * k0 + 2) == G(L, 2 * k0) + W, G(L, 2 * k0 + 1) == G(L, 2 * k0) + half * W)))])
        else:
            P.loop(LP[2], inv=inner("n"))
            P.loop(LP[3], inv=lambda L: frame(L) + [("i<=n", L["i"] <= n - 1), ("second", G(L, iv(1)) == X.B(iv(0)) + half * X.D(iv(0))),
                                                  ("done", Implies(k0 < L["i"], And(G(L, 2 * k0 + 2) == G(L, 2 * k0 + 1) + half * W, G(L, 2 * k0 + 3) == G(L, 2 * k0 + 1) + W)))])
        P.run()
        post, r = P.post, P.ret
        O = lambda x: post.at(r, simp(x), F64)
        P.ensures("two supergrid cells for every cell of every region", post.at(a["grid_size"], None, I32) == 2 * n)
        P.ensures("starts at the first bound", O(iv(0)) == X.B(iv(0)))
        if mode == 1:
            P.ensures("cell has the prescribed width", O(2 * k0 + 2) - O(2 * k0) == W)
            P.ensures("centre of a cell is midway between its sides", 2 * O(2 * k0 + 1) == O(2 * k0 + 2) + O(2 * k0))
            P.ensures("t_cell cannot be stretched", stretch == 1)
        else:
            P.ensures("half a cell to the first centre", O(iv(1)) - O(iv(0)) == half * X.D(iv(0)))
            P.ensures("centres are the prescribed width apart", Implies(k0 < n - 1, O(2 * k0 + 3) - O(2 * k0 + 1) == W))
            P.ensures("sides are midway between centres", Implies(k0 < n - 1, 2 * O(2 * k0 + 2) == O(2 * k0 + 1) + O(2 * k0 + 3)))
            P.ensures("last half cell", Implies(k0 == n - 1, O(2 * k0 + 2) - O(2 * k0 + 1) == half * W))
        return P
    return b


LP = (2, 4, 1, 3)


def p_legacy_size():
    P = Proof(TU, "get_legacy_grid_size", contracts={"round": c_round, "llvm.round.f64": c_round})
    a = P.a
    nb = a["nb"]
    for k in ("bnds", "dbnds"):
        P.elem(a[k], F64)
        P.length(a[k], nb)
    X = Legacy(P, nb, lambda i: P.pre.at(a["bnds"], i, F64), lambda i: P.pre.at(a["dbnds"], i, F64))
    P.requires(nb >= 2, X.S(iv(0)) == 0)

    def inv(L):
        X.unfold(L["l"])
        return [("l", And(0 <= L["l"], L["l"] <= nb - 1)), ("sum", L["grid_size"] == X.S(L["l"])), ("refine", L["refine"] == 2)]
    P.loop(0, inv=inv)
    P.run()
    P.ensures("the size of the grid compute_grid_bound_legacy makes without stretching", P.ret == 2 * X.S(nb - 1))
    return P


def val(P, name, want):
    P.ensures(name, P.ret == want)
    return P


def dist(x1, x2, m1, m2):
    return absr(x1 - x2) * D2R * (m1 + m2) / 2


def p_distant():
    P = Proof(TU, "distant")
    P.run()
    a = P.a
    return val(P, "mean metric times the difference", dist(a["a"], a["b"], a["met1"], a["met2"]))


def c_distant(c):
    return dist(*c.args)


def sph(x1, y1, x2, y2):
    """length of the side of a box between two meridians and two parallels"""
    return If(x1 == x2, absr(y1 - y2) * D2R * RAD, absr(x1 - x2) * D2R * RAD * m_cos(y1 * D2R))


def c_sph(c):
    x1, y1, x2, y2 = c.args
    c.assume(Or(x1 == x2, y1 == y2))
    return sph(x1, y1, x2, y2)


def p_sph():
    P = Proof(TU, "spherical_dist", contracts={"mpp_error": die, "distant": c_distant})
    P.run()
    v = [P.a[k] for k in ("x1", "y1", "x2", "y2")]
    P.ensures("only points on a meridian or on a parallel", Or(v[0] == v[2], v[1] == v[3]))
    return val(P, "length along the meridian or the parallel", sph(*v))


def cart(x1, y1, x2, y2, lat):
    return If(x1 == x2, absr(y2 - y1) * D2R * RAD, absr(x2 - x1) * D2R * RAD * m_cos(lat * D2R))


def c_cart(c):
    x1, y1, x2, y2, lat = c.args
    c.assume(Or(x1 == x2, y1 == y2))
    return cart(*c.args)


def p_cart():
    P = Proof(LL, "cartesian_dist", contracts={"mpp_error": die})
    P.run()
    v = [P.a[k] for k in ("x1", "y1", "x2", "y2", "f_plane_latitude")]
    P.ensures("only points on a line of the grid", Or(v[0] == v[2], v[1] == v[3]))
    return val(P, "length with the metric of the latitude of the plane", cart(*v))


def carea(x1, y1, x2, y2, lat):
    return (x2 - x1) * D2R * ((y2 - y1) * D2R) * m_cos(lat * D2R) * RAD * RAD


def c_carea(c):
    return carea(*c.args)


def p_carea():
    P = Proof(LL, "cartesian_box_area")
    P.run()
    return val(P, "area on the plane", carea(*[P.a[k] for k in ("x1", "y1", "x2", "y2", "f_plane_latitude")]))


def box(a, b, c, d):
    dx = c - a
    TPI = real(2.0 * math.pi)
    dx1 = If(dx > PI, dx - TPI, dx)
    return If(dx1 < -PI, dx1 + TPI, dx1) * (m_sin(d) - m_sin(b)) * RAD * RAD


def c_box(c):
    return box(*c.args)


def p_box():
    P = Proof(MU, "box_area")
    P.run()
    return val(P, "area between two meridians and two parallels", box(*[P.a[k] for k in ("ll_lon", "ll_lat", "ur_lon", "ur_lat")]))


SMALLD = real(1.0e-4)


def p_range():
    """lon_in_range: the same meridian, in the turn asked for"""
    P = Proof(TU, "lon_in_range")
    lon, lo = P.a["lon"], P.a["lon_strt"]
    Same = z3.Function("whole_turns_away", R, z3.BoolSort())
    P.requires(Same(lon))

    def inv(L):
        k = L["lon_in_range"]
        if not P.eng.dry:
            P.eng.facts.append(And(Same(k) == Same(simp(k + 360)), Same(k) == Same(simp(k - 360))))
        return [("whole turns", Same(k)), ("end", L["lon_end"] == lo + 360), ("on the way", And(Implies(lon > lo + 360, k >= lo), Implies(lon < lo, k <= lo + 360)))]
    P.loop(0, inv=inv)
    P.run()
    r = P.ret
    near = Or(absr(lon - lo) < SMALLD, absr(lon - (lo + 360)) < SMALLD)
    P.ensures("in the turn that starts at the reference", And(lo <= r, r <= lo + 360))
    P.ensures("the same meridian", Implies(Not(near), Same(r)))
    P.ensures("the reference itself when it is near", Implies(near, r == lo))
    return P


class Area2:
    """ghost cell (gi,gj) of the compute domain and its corners on the global grid"""
    def __init__(s, P, nxp, nyp, isc, iec, jsc, jec):
        s.P, s.nxp, s.nyp = P, nxp, nyp
        s.W, s.H = iec - isc + 1, jec - jsc + 1
        s.isc, s.jsc = isc, jsc
        s.gi, s.gj = P.ghost("i"), P.ghost("j")
        P.requires(0 <= s.gi, s.gi <= s.W, 0 <= s.gj, s.gj <= s.H)
        s.ci, s.cj = isc + s.gi, jsc + s.gj
        x, y, X, Y, x2, y2 = z3.Ints("lx ly lX lY lx2 ly2")
        s.flat = P.lemma("flattened index", [x, y, X, Y], Implies(And(0 <= x, x < X, 0 <= y, y < Y), And(y * X + x >= 0, y * X + x < X * Y)))
        s.uniq = P.lemma("flattened index is unique", [x, y, x2, y2, X], Implies(And(0 <= x, x < X, 0 <= x2, x2 < X, y * X + x == y2 * X + x2), And(x == x2, y == y2)))

    def at(s, i, j, W, H, gi, gj):
        s.flat(i, j, W, H)
        s.uniq(i, j, gi, gj, W)

    def corners(s):
        return [(a, b) for b in (0, 1) for a in (0, 1)]

    def point(s, a, b):
        return simp((s.cj + b) * s.nxp + s.ci + a)

    def on(s, a, b):
        return And(s.ci + a < s.nxp, s.cj + b < s.nyp)

    def passed(s, i, j, gi, gj):
        return Or(j > gj, And(j == gj, i > gi))


def lonlat(func, dist, area, lat=None):
    """set_regular_lonlat_grid and set_f_plane_grid: every length, area and angle belongs to its own points"""
    gca = func.startswith("set_regular")

    def b():
        GC = z3.Function("great_circle_area", *[R] * 8, R)

        def gcarea(c):
            nx, ny, X, Y, A = c.args
            c.require("the whole grid", And(c.at(nx, None, I32) == nxp - 1, c.at(ny, None, I32) == nyp - 1, same(A, a["area"])))
            co = [(0, 0), (1, 0), (1, 1), (0, 1)]
            for u, v in co:
                c.require("corner %d,%d in radians" % (u, v), Implies(And(S.gi < S.W, S.gj < S.H), And(c.at(X, S.point(u, v), F64) == XB(S.ci + u) * D2R, c.at(Y, S.point(u, v), F64) == YB(S.cj + v) * D2R)))
            F = c.eng.mkbase(freshname("gcarea"), 1, F64)
            c.bulk(A, F64, lambda *ix: And(ix[-1] >= 0, ix[-1] < S.W * S.H), lambda *ix: F.read((ix[-1],)))
            c.assume_all(F.read((simp(S.gj * S.W + S.gi),)) == GC(*[c.at(p, S.point(u, v), F64) for u, v in co for p in (X, Y)]))
        cs = {dist[0]: dist[1], area[0]: area[1]}
        if gca:
            cs["get_grid_great_circle_area"] = gcarea
        P = Proof(LL, func, contracts=cs)
        a = P.a
        nxp, nyp = a["nxp"], a["nyp"]
        isc, iec, jsc, jec = [a[k] for k in ("isc", "iec", "jsc", "jec")]
        P.requires(nxp >= 2, nyp >= 2, 0 <= isc, isc <= iec, iec + 1 < nxp, 0 <= jsc, jsc <= jec, jec + 1 < nyp)
        S = Area2(P, nxp, nyp, isc, iec, jsc, jec)
        W, H = S.W, S.H
        if gca:
            P.requires(Implies(a["use_great_circle_algorithm"] != 0, And(isc == 0, jsc == 0, iec == nxp - 2, jec == nyp - 2)))
        size = {"xb": nxp, "yb": nyp, "x": nxp * nyp, "y": nxp * nyp, "dx": W * (H + 1), "dy": (W + 1) * H, "area": W * H, "angle": (W + 1) * (H + 1)}
        for k, n in size.items():
            P.elem(a[k], F64)
            P.length(a[k], n)
        XB, YB = (lambda i: P.pre.at(a["xb"], simp(i), F64)), (lambda i: P.pre.at(a["yb"], simp(i), F64))
        V = lambda L, k, q: L.at(a[k], q, F64)

        def grid(L, i=None, j=None):
            o = []
            for u, v in S.corners():
                f = And(V(L, "x", S.point(u, v)) == XB(S.ci + u), V(L, "y", S.point(u, v)) == YB(S.cj + v))
                o.append(("point %d,%d" % (u, v), Implies(And(S.on(u, v), S.passed(i, j, S.ci + u, S.cj + v) if i is not None else True), f)))
            return o
        ex = [] if lat is None else [a[lat]]
        dfn, afn = dist[2], area[2]
        want = {"dx": dfn(XB(S.ci), YB(S.cj), XB(S.ci + 1), YB(S.cj), *ex), "dy": dfn(XB(S.ci), YB(S.cj), XB(S.ci), YB(S.cj + 1), *ex),
                "area": afn(XB, YB, S.ci, S.cj, *ex), "angle": z3.RealVal(0)}
        dims = {"dx": (W, H + 1), "dy": (W + 1, H), "area": (W, H), "angle": (W + 1, H + 1)}
        order = ["dx", "dy", "area", "angle"]

        def have(L, k, i=None, j=None):
            w, h = dims[k]
            f = V(L, k, simp(S.gj * w + S.gi)) == want[k]
            if k == "area" and gca:
                co = [(0, 0), (1, 0), (1, 1), (0, 1)]
                g = GC(*[t for u, v in co for t in (XB(S.ci + u) * D2R, YB(S.cj + v) * D2R)])
                f = V(L, k, simp(S.gj * w + S.gi)) == If(a["use_great_circle_algorithm"] != 0, g, want[k])
            return (k, Implies(And(S.gi < w, S.gj < h, S.passed(i, j, S.ci, S.cj) if i is not None else True), f))

        def outer0(L):
            return [("j", And(0 <= L["j"], L["j"] <= nyp)), ("n", L["n"] == L["j"] * nxp)] + grid(L, iv(0), L["j"])

        def inner0(L):
            for d in (0, 1):
                i = simp(L["i"] - d)
                S.flat(i, L["j"], nxp, nyp)
                for u, v in S.corners():
                    S.uniq(i, L["j"], simp(S.ci + u), simp(S.cj + v), nxp)
            return [("j", And(0 <= L["j"], L["j"] < nyp)), ("i", And(0 <= L["i"], L["i"] <= nxp)), ("n", L["n"] == L["j"] * nxp + L["i"])] + grid(L, L["i"], L["j"])

        def pair(k, n0, n1):
            w, h = dims[k]
            before = order[:order.index(k)]
            rest = lambda L: grid(L) + [have(L, m) for m in before]
            P.loop(n0, inv=lambda L: [("j", And(jsc <= L["j"], L["j"] <= jsc + h)), ("n", L["n"] == (L["j"] - jsc) * w)] + rest(L) + [have(L, k, isc, L["j"])])

            def inner(L):
                for d in (0, 1):
                    i, j = simp(L["i"] - isc - d), simp(L["j"] - jsc)
                    S.flat(i, j, w, h)
                    S.uniq(i, j, S.gi, S.gj, w)
                    for u, v in S.corners():
                        S.flat(simp(L["i"] - d + u), simp(L["j"] + v), nxp, nyp)
                return [("j", And(jsc <= L["j"], L["j"] < jsc + h)), ("i", And(isc <= L["i"], L["i"] <= isc + w)), ("n", L["n"] == (L["j"] - jsc) * w + L["i"] - isc)] + rest(L) + [have(L, k, L["i"], L["j"])]
            P.loop(n1, inv=inner)
        for u, v in S.corners():
            S.flat(simp(S.ci + u), simp(S.cj + v), nxp, nyp)
        for k in order:
            w, h = dims[k]
            S.flat(S.gi, S.gj, w, h)
        P.loop(0, inv=outer0)
        P.loop(1, inv=inner0)
        pair("dx", 2, 3)
        pair("dy", 4, 5)
        pair("area", *((7, 8) if gca else (6, 7)))
        pair("angle", *((9, 10) if gca else (8, 9)))
        if gca:
            q = z3.Int("q")
            rad = lambda L: [("radians %d%d" % (u, v), Implies(And(S.on(u, v), S.point(u, v) < L["i"]), And(L.at(L["x_rad"], S.point(u, v), F64) == V(L, "x", S.point(u, v)) * D2R, L.at(L["y_rad"], S.point(u, v), F64) == V(L, "y", S.point(u, v)) * D2R))) for u, v in S.corners()]
            P.loop(6, inv=lambda L: [("i", And(0 <= L["i"], L["i"] <= nxp * nyp))] + grid(L) + [have(L, m) for m in ("dx", "dy")] + rad(L))
        P.run()
        for n, f in grid(P.post):
            P.ensures("grid point lies on its two lines: " + n, f)
        for k in order:
            P.ensures("%s belongs to its own points" % k, have(P.post, k)[1])
        return P
    return b


def a_box(XB, YB, i, j):
    return box(XB(i) * D2R, YB(j) * D2R, XB(i + 1) * D2R, YB(j + 1) * D2R)


def a_cart(XB, YB, i, j, lat):
    return carea(XB(i), YB(j), XB(i + 1), YB(j + 1), lat)


def c_line(which):
    """contract of compute_grid_bound and compute_grid_bound_legacy: a new array with one more point than cells; `which` maps the arguments to the axis"""
    def c(ctx):
        ax = which(ctx)
        r = ctx.eng.region(freshname("line"), kind="malloc")
        n = ax["n"]
        r.bytes = simp(8 * (n + 1))
        p = Ptr(r)
        ctx.bulk(p, F64, lambda *ix: z3.BoolVal(True), lambda *ix: ax["f"](ix[-1]))
        ctx.set(ax["size"], I32, n)
        ctx.assume_all(n >= 1)
        return p
    return c


def axes(P, legacy):
    """x and y lines made from the right bounds, counts or resolutions and centering"""
    a = P.a
    fx, fy = z3.Function("x_line", Z, R), z3.Function("y_line", Z, R)
    NX, NY = z3.Ints("cells_x cells_y")

    def which(kind):
        def w(c):
            nb, b = c.args[0], c.args[1]
            axis = "x" if same(b, a["xbnds"]).eq(z3.BoolVal(True)) else "y"
            c.require("the algorithm asked for", (a["use_legacy"] != 0) == (kind == "legacy"))
            c.require("bounds of the axis", And(same(b, a[axis + "bnds"]), nb == P.pre.at(a["n%sbnds" % axis], None, I32)))
            per = {"x": ("nlon", "dlon"), "y": ("nlat", "dlat")}[axis][kind == "legacy"]
            c.require("cells or resolutions of the axis", same(c.args[2], a[per]))
            if kind == "legacy":
                c.require("no stretching", c.args[3] == 1)
            c.require("centering", same(c.args[-1], a["center"]))
            return dict(n=NX if axis == "x" else NY, f=fx if axis == "x" else fy, size=c.args[-2])
        return w
    return fx, fy, NX, NY, {"compute_grid_bound": c_line(which("spline")), "compute_grid_bound_legacy": c_line(which("legacy"))}


def create(func, callee, lat=None):
    def b():
        P = Proof(LL, func, contracts={})
        a = P.a
        fx, fy, NX, NY, cs = axes(P, None)
        for k in ("nxbnds", "nybnds", "isc", "iec", "jsc", "jec"):
            P.elem(a[k], I32)
            P.length(a[k], 1)
        for k in ("xbnds", "ybnds", "dlon", "dlat", "x", "y", "dx", "dy", "area", "angle_dx"):
            P.elem(a[k], F64)
        for k in ("nlon", "nlat"):
            P.elem(a[k], I32)
        q = P.ghost("q")
        P.requires(q >= 0)

        def setg(c):
            xb, yb = c.args[6], c.args[7]
            c.require("points of both lines", And(c.args[0] == NX + 1, c.args[1] == NY + 1))
            c.require("compute domain", And(*[c.args[2 + k] == P.pre.at(a[n], None, I32) for k, n in enumerate(("isc", "iec", "jsc", "jec"))]))
            c.require("x line", Implies(q <= NX, c.at(xb, q, F64) == fx(q)))
            c.require("y line", Implies(q <= NY, c.at(yb, q, F64) == fy(q)))
            rest = list(c.args[8:])
            if lat:
                c.require("latitude of the plane", rest.pop(0) == a[lat])
            else:
                c.require("area algorithm", rest.pop() == a["use_great_circle_algorithm"])
            c.require("output arrays", And(*[same(p, a[n]) for p, n in zip(rest, ("x", "y", "dx", "dy", "area", "angle_dx"))]))
            c.set_ghost("made", iv(1))
        cs[callee] = setg
        P.eng.contracts.update(cs)
        P.st0.mem[("ghost_made", (), I64)] = iv(0)
        P.run()
        P.ensures("the grid is made", P.final.mem[("ghost_made", (), I64)] == 1)
        return P
    return b


def p_vgrid():
    P = Proof(VG, "create_vgrid", contracts={})
    a = P.a
    f = z3.Function("line", Z, R)
    n = z3.Int("cells")
    for k in ("bnds", "dbnds", "zeta"):
        P.elem(a[k], F64)
    for k in ("nz", "np"):
        P.elem(a[k], I32)
    P.length(a["np"], 1)
    P.length(a["zeta"], n + 1)

    def which(kind):
        def w(c):
            c.require("the algorithm asked for", (a["use_legacy"] != 0) == (kind == "legacy"))
            c.require("bounds, cells or resolutions and centering", And(c.args[0] == a["nbnds"], same(c.args[1], a["bnds"]), same(c.args[2], a["dbnds" if kind == "legacy" else "nz"]), same(c.args[-1], a["center"])))
            if kind == "legacy":
                c.require("stretching", c.args[3] == a["stretch"])
            return dict(n=n, f=f, size=c.args[-2])
        return w
    P.eng.contracts.update({"compute_grid_bound": c_line(which("spline")), "compute_grid_bound_legacy": c_line(which("legacy"))})
    q = P.ghost("q")
    P.requires(0 <= q, q <= n)
    Zt = lambda L: L.at(a["zeta"], q, F64)
    P.loop(0, inv=lambda L: [("i", And(0 <= L["i"], L["i"] <= n + 1)), ("size", L.at(a["np"], None, I32) == n), ("line", L.at(L["zb"], q, F64) == f(q)), ("done", Implies(q < L["i"], Zt(L) == f(q)))])
    P.run()
    P.ensures("the vertical grid is the line", And(Zt(P.post) == f(q), P.post.at(a["np"], None, I32) == n))
    return P


def p_simple():
    """create_simple_cartesian_grid"""
    P = Proof(LL, "create_simple_cartesian_grid", contracts={})
    a = P.a
    I = lambda k: P.pre.at(a[k], None, I32)
    D = lambda k, i=None: P.pre.at(a[k], i, F64)
    for k in ("nlon", "nlat", "isc", "iec", "jsc", "jec"):
        P.elem(a[k], I32)
        P.length(a[k], 1)
    nx, ny = I("nlon"), I("nlat")
    nxp, nyp = nx + 1, ny + 1
    for k, n in (("xbnds", 2), ("ybnds", 2), ("simple_dx", 1), ("simple_dy", 1)):
        P.elem(a[k], F64)
        P.length(a[k], n)
    P.requires(nx >= 1, ny >= 1, 0 <= I("isc"), I("isc") <= I("iec"), I("iec") < nx, 0 <= I("jsc"), I("jsc") <= I("jec"), I("jec") < ny)
    S = Area2(P, nxp, nyp, I("isc"), I("iec"), I("jsc"), I("jec"))
    W, H = S.W, S.H
    for k, n in (("x", nxp * nyp), ("y", nxp * nyp), ("dx", W * (H + 1)), ("dy", (W + 1) * H), ("area", W * H), ("angle_dx", (W + 1) * (H + 1))):
        P.elem(a[k], F64)
        P.length(a[k], n)
    T = {"x": z3.Function("x_value", Z, R), "y": z3.Function("y_value", Z, R)}
    calls = []

    def spline(c):
        n1, n2, g1, g2, d1, d2 = c.args[:6]
        ax = "x" if same(d1, a["xbnds"]).eq(z3.BoolVal(True)) else "y"
        n = {"x": nx, "y": ny}[ax]
        A = lambda p, i: c.at(p, i, F64)
        k = fresh("k", Z)
        c.require("two bounds of the axis", And(n1 == 2, same(d1, a[ax + "bnds"]), n2 == n + 1))
        c.require("positions of the bounds", And(A(g1, iv(0)) == 1, A(g1, iv(1)) == toR(n + 1)))
        c.require("position", Implies(And(0 <= k, k < n2), A(g2, k) == toR(k + 1)))
        c.bulk(d2, F64, lambda *ix: And(ix[-1] >= d2.idx[-1], ix[-1] < d2.idx[-1] + n2), lambda *ix: T[ax](simp(ix[-1] - d2.idx[-1])))
        # contract of cubic_spline (proved in C06): two points are joined by a straight line
        for i in (S.ci, S.cj):
            c.assume_all(T[ax](i) * toR(n) == (D(ax + "bnds", iv(1)) - D(ax + "bnds", iv(0))) * toR(i) + D(ax + "bnds", iv(0)) * toR(n))
    P.eng.contracts.update({"cubic_spline": spline})
    q = z3.Int("q")
    posn = lambda i, n: (lambda L: [("i", And(0 <= L[i], L[i] <= n + 1)), ("size", And(L["nx"] == nx, L["ny"] == ny, L["nxp"] == nxp, L["nyp"] == nyp)), ("positions", forall([q], Implies(And(0 <= q, q < L[i]), L.at(L["grid2"], q, F64) == toR(q + 1)), [L.at(L["grid2"], q, F64)])),
                                    ("knots", And(L.at(L["grid1"], iv(0), F64) == 1, L.at(L["grid1"], iv(1), F64) == toR(n + 1)))])
    P.loop(0, inv=posn("i", nx))
    P.loop(1, inv=posn("j", ny))
    V = lambda L, k, t: L.at(a[k], t, F64)
    pt = lambda L: And(V(L, "x", S.point(0, 0)) == T["x"](S.ci), V(L, "y", S.point(0, 0)) == T["y"](S.cj))
    S.flat(S.ci, S.cj, nxp, nyp)

    def outer(L):
        return [("j", And(0 <= L["j"], L["j"] <= nyp)), ("n", L["n"] == L["j"] * nxp), ("point", Implies(L["j"] > S.cj, pt(L)))]

    def inner(L):
        for d in (0, 1):
            S.flat(simp(L["i"] - d), L["j"], nxp, nyp)
            S.uniq(simp(L["i"] - d), L["j"], S.ci, S.cj, nxp)
        return [("j", And(0 <= L["j"], L["j"] < nyp)), ("i", And(0 <= L["i"], L["i"] <= nxp)), ("n", L["n"] == L["j"] * nxp + L["i"]), ("point", Implies(S.passed(L["i"], L["j"], S.ci, S.cj), pt(L)))]
    P.loop(2, inv=outer)
    P.loop(3, inv=inner)
    sx, sy = D("simple_dx"), D("simple_dy")
    want = [("dx", W, H + 1, sx), ("dy", W + 1, H, sy), ("area", W, H, sx * sy), ("angle_dx", W + 1, H + 1, z3.RealVal(0))]
    cell = lambda L, k, w, h, v, hi=None: (k, Implies(And(S.gi < w, S.gj < h, simp(S.gj * w + S.gi) < hi if hi is not None else True), V(L, k, simp(S.gj * w + S.gi)) == v))
    for k, w, h, v in want:
        S.flat(S.gi, S.gj, w, h)
    for m, (k, w, h, v) in enumerate(want):
        P.loop(4 + m, inv=lambda L, m=m, k=k, w=w, h=h, v=v: [("n", And(0 <= L["n"], L["n"] <= w * h)), ("size", And(L["nxc"] == W, L["nyc"] == H)), ("point", pt(L))] + [cell(L, *t) for t in want[:m]] + [cell(L, k, w, h, v, L["n"])])
    P.run()
    line = lambda ax, i, n: V(P.post, ax, S.point(0, 0)) * toR(n) == (D(ax + "bnds", iv(1)) - D(ax + "bnds", iv(0))) * toR(i) + D(ax + "bnds", iv(0)) * toR(n)
    P.ensures("x is spaced evenly between its bounds", line("x", S.ci, nx))
    P.ensures("y is spaced evenly between its bounds", line("y", S.cj, ny))
    for t in want:
        P.ensures("%s is as prescribed" % t[0], cell(P.post, *t)[1])
    return P


def uf(name, n):
    return z3.Function(name, *[R] * (n + 1))


m_tan, m_atan, m_asin = uf("m_tan", 1), uf("m_atan", 1), uf("m_asin", 1)


def p_tripolar():
    BD, TX, TY, PA = uf("bipolar_length", 8), uf("tripolar_lon", 9), uf("tripolar_lat", 9), uf("polygon_area", 8)
    GC = uf("great_circle_area", 8)
    NI = z3.Function("nearest", R, Z)
    AT2 = z3.Function("m_atan2", R, R, R)
    P = Proof(LL, "create_tripolar_grid", contracts={}, timeout=60)
    a = P.a
    fx, fy, NX, NY, cs = axes(P, None)
    for k in ("nxbnds", "nybnds", "isc", "iec", "jsc", "jec"):
        P.elem(a[k], I32)
        P.length(a[k], 1)
    I = lambda k: P.pre.at(a[k], None, I32)
    for k in ("xbnds", "ybnds", "dlon", "dlat", "x", "y", "dx", "dy", "area", "angle_dx", "lat_join_in"):
        P.elem(a[k], F64)
    for k in ("nlon", "nlat"):
        P.elem(a[k], I32)
    P.length(a["xbnds"], I("nxbnds"))
    P.length(a["lat_join_in"], 1)
    nxp, nyp = NX + 1, NY + 1
    P.requires(NX >= 1, NY >= 1, I("nxbnds") >= 2, 0 <= I("isc"), I("isc") <= I("iec"), I("iec") < NX, 0 <= I("jsc"), I("jsc") <= I("jec"), I("jec") < NY)
    S = Area2(P, nxp, nyp, I("isc"), I("iec"), I("jsc"), I("jec"))
    W, H = S.W, S.H
    gca = a["use_great_circle_algorithm"] != 0
    P.requires(Implies(gca, And(I("isc") == 0, I("jsc") == 0, I("iec") == NX - 1, I("jec") == NY - 1)))
    for k, n in (("x", nxp * nyp), ("y", nxp * nyp), ("dx", W * (H + 1)), ("dy", (W + 1) * H), ("area", W * H), ("angle_dx", (W + 1) * (H + 1))):
        P.length(a[k], n)
    J = z3.Int("join_row")
    P.requires(0 <= J, J < nyp)
    x0 = P.pre.at(a["xbnds"], iv(0), F64)
    q = z3.Int("q")

    def nearest(c):
        v, arr, n = c.args
        k = fresh("k", Z)
        c.require("row nearest to the join latitude", And(v == P.pre.at(a["lat_join_in"], None, F64), n == nyp, Implies(And(0 <= k, k < nyp), c.at(arr, k, F64) == fy(k))))
        return J
    rp = m_tan((real(0.5 * math.pi) - fy(J) * D2R) / 2)

    def params(c, args):
        c.require("poles of the bipolar part", And(args[0] == x0 + 90, args[1] == x0 + 180, args[2] == x0, args[3] == rp))

    def bd(c):
        params(c, c.args[4:])
        return BD(*c.args)

    def tp(c):
        lon, lat, ref, start, lam0 = c.args[:5]
        params(c, c.args[5:])
        c.require("first longitude", start == x0)
        v = [c.at(lon, None, F64), c.at(lat, None, F64), ref, start, lam0] + list(c.args[5:])
        c.set(lon, F64, TX(*v))
        c.set(lat, F64, TY(*v))
    st = {}
    co = [(0, 0), (1, 0), (1, 1), (0, 1)]
    V = lambda L, k, t: L.at(a[k], simp(t), F64)

    def fixlon(c):
        x, y, n, t = c.args
        i, j = [c.eng.load(c.st, Ptr(c.eng.frames[-1].allocas[k]), I32, chk=False) for k in ("i", "j")]
        vs = []
        for m, (u, v) in enumerate(co):
            for p, k in ((x, "x"), (y, "y")):
                w = c.at(p, iv(m), F64)
                c.require("corner %d of the cell" % m, w == c.at(a[k], simp((j + v) * nxp + i + u), F64) * D2R)
                vs.append(w)
        c.require("four corners around the date line", And(n == 4, t == PI))
        r = fresh("n_count", Z)
        c.assume(And(0 <= r, r <= 8))
        for p in (x, y):
            c.havoc(p, F64)
        st["poly"] = (x, y, r, vs)
        return r

    def parea(c):
        if "poly" not in st:
            raise AttachError("poly_area before fix_lon")
        x, y, r, vs = st["poly"]
        c.require("the corrected polygon", And(same(c.args[0], x), same(c.args[1], y), c.args[2] == r))
        return PA(*vs)

    def gcarea(c):
        nx, ny, X, Y, A = c.args
        c.require("the whole grid", And(c.at(nx, None, I32) == NX, c.at(ny, None, I32) == NY, same(A, a["area"])))
        for u, v in co:
            c.require("corner %d,%d in radians" % (u, v), Implies(And(S.gi < W, S.gj < H), And(c.at(X, S.point(u, v), F64) == c.at(a["x"], S.point(u, v), F64) * D2R, c.at(Y, S.point(u, v), F64) == c.at(a["y"], S.point(u, v), F64) * D2R)))
        F = c.eng.mkbase(freshname("gcarea"), 1, F64)
        vals = [c.at(p, S.point(u, v), F64) for u, v in co for p in (X, Y)]
        c.bulk(A, F64, lambda *ix: And(ix[-1] >= 0, ix[-1] < W * H), lambda *ix: F.read((ix[-1],)))
        c.assume_all(F.read((simp(S.gj * W + S.gi),)) == GC(*vals))
    cs.update({"nearest_index": nearest, "bipolar_dist": bd, "tp_trans": tp, "fix_lon": fixlon, "poly_area": parea, "get_grid_great_circle_area": gcarea, "spherical_dist": c_sph, "box_area": c_box,
               "mpp_pe": lambda c: iv(0), "mpp_root_pe": lambda c: iv(0), "atan2": lambda c: AT2(*c.args), "fmod": lambda c: uf("m_fmod", 2)(*c.args), "tan": lambda c: m_tan(c.args[0])})
    P.eng.contracts.update(cs)
    LAM = uf("m_fmod", 2)((x0 + 90) * D2R + real(2 * math.pi), real(2 * math.pi))
    par = [x0, LAM, x0 + 90, x0 + 180, x0, rp]

    def nominal(L, u, v):
        return And(V(L, "x", S.point(u, v)) == fx(simp(S.ci + u)), V(L, "y", S.point(u, v)) == fy(simp(S.cj + v)))

    def bent(L, u, v):
        ref = If(S.ci + u == 0, fx(iv(0)), V(L, "x", S.point(u - 1, v)))
        t = [fx(simp(S.ci + u)), fy(simp(S.cj + v)), ref] + par
        return And(V(L, "x", S.point(u, v)) == TX(*t), V(L, "y", S.point(u, v)) == TY(*t))

    def grid0(L, i=None, j=None):
        return [("point %d,%d" % (u, v), Implies(And(S.on(u, v), S.passed(i, j, S.ci + u, S.cj + v) if i is not None else True), nominal(L, u, v))) for u, v in S.corners()]

    def grid1(L, i=None, j=None):
        o = []
        for u, v in S.corners():
            done = And(S.cj + v >= J, S.passed(i, j, S.ci + u, S.cj + v) if i is not None else True)
            o.append(("final point %d,%d" % (u, v), Implies(S.on(u, v), If(done, bent(L, u, v), nominal(L, u, v)))))
        return o

    def side(dfn, k):
        u, v = (1, 0) if k == "dx" else (0, 1)
        t = [fx(S.ci), fy(S.cj), fx(simp(S.ci + u)), fy(simp(S.cj + v))]
        return If(S.cj < J, sph(*t), BD(*t, x0 + 90, x0 + 180, x0, rp))
    dims = {"dx": (W, H + 1), "dy": (W + 1, H), "area": (W, H), "angle_dx": (W + 1, H + 1)}

    def want(L, k):
        if k in ("dx", "dy"):
            return side(None, k)
        X, Y = (lambda u, v=0: V(L, "x", S.point(u, v))), (lambda u, v=0: V(L, "y", S.point(u, v)))
        if k == "area":
            poly = [t for u, v in co for t in (X(u, v) * D2R, Y(u, v) * D2R)]
            return If(gca, GC(*poly), If(S.cj < J, box(X(0, 0) * D2R, Y(0, 0) * D2R, X(1, 1) * D2R, Y(1, 1) * D2R), PA(*poly)))
        return If(Or(S.cj < J, S.ci == 0, S.ci == NX), z3.RealVal(0), AT2(Y(1) - Y(-1), (X(1) - X(-1)) * m_cos(Y(0) * D2R)) * R2D)

    def have(L, k, i=None, j=None):
        w, h = dims[k]
        return (k, Implies(And(S.gi < w, S.gj < h, S.passed(i, j, S.ci, S.cj) if i is not None else True), V(L, k, S.gj * w + S.gi) == want(L, k)))
    const = lambda L: [("size", And(L["nx"] == NX, L["ny"] == NY, L["nxp"] == nxp, L["nyp"] == nyp))]
    late = lambda L: const(L) + [("join", And(L["j_join"] == J, L["lon_start"] == x0, L["lon_bpeq"] == x0 + 90, L["lon_bpnp"] == x0, L["lon_bpsp"] == x0 + 180, L["rp"] == rp, L["lam0"] == LAM))]
    isc, jsc = I("isc"), I("jsc")

    def points(L, dec=(0, 1)):
        for d in dec:
            i = simp(L["i"] - d)
            S.flat(i, L["j"], nxp, nyp)
            for u, v in S.corners() + [(-1, 0), (-1, 1)]:
                S.uniq(i, L["j"], simp(S.ci + u), simp(S.cj + v), nxp)
    P.loop(0, inv=lambda L: const(L) + [("j", And(0 <= L["j"], L["j"] <= nyp)), ("n", L["n"] == L["j"] * nxp)] + grid0(L, iv(0), L["j"]))

    def inner0(L):
        points(L)
        return const(L) + [("j", And(0 <= L["j"], L["j"] < nyp)), ("i", And(0 <= L["i"], L["i"] <= nxp)), ("n", L["n"] == L["j"] * nxp + L["i"])] + grid0(L, L["i"], L["j"])
    P.loop(1, inv=inner0)
    order = ["dx", "dy", "area", "angle_dx"]

    def pair(k, n0, n1, grid):
        w, h = dims[k]
        rest = lambda L: late(L) + grid(L) + [have(L, m) for m in order[:order.index(k)]]
        P.loop(n0, inv=lambda L: [("j", And(jsc <= L["j"], L["j"] <= jsc + h)), ("n", L["n"] == (L["j"] - jsc) * w)] + rest(L) + [have(L, k, isc, L["j"])])

        def inner(L):
            for d in (0, 1):
                i, j = simp(L["i"] - isc - d), simp(L["j"] - jsc)
                S.flat(i, j, w, h)
                S.uniq(i, j, S.gi, S.gj, w)
                for u, v in S.corners() + [(-1, 0)]:
                    S.flat(simp(L["i"] - d + u), simp(L["j"] + v), nxp, nyp)
            return [("j", And(jsc <= L["j"], L["j"] < jsc + h)), ("i", And(isc <= L["i"], L["i"] <= isc + w)), ("n", L["n"] == (L["j"] - jsc) * w + L["i"] - isc)] + rest(L) + [have(L, k, L["i"], L["j"])]
        P.loop(n1, inv=inner)
    for u, v in S.corners() + [(-1, 0), (-1, 1)]:
        S.flat(simp(S.ci + u), simp(S.cj + v), nxp, nyp)
    for k in order:
        S.flat(S.gi, S.gj, *dims[k])
    pair("dx", 2, 3, grid0)
    pair("dy", 4, 5, grid0)

    def outer6(L):
        return late(L) + [("j", And(J <= L["j"], L["j"] <= nyp))] + grid1(L, iv(0), L["j"]) + [have(L, m) for m in ("dx", "dy")]

    def inner6(L):
        points(L)
        return late(L) + [("j", And(J <= L["j"], L["j"] < nyp)), ("i", And(0 <= L["i"], L["i"] <= nxp))] + grid1(L, L["i"], L["j"]) + [have(L, m) for m in ("dx", "dy")]
    P.loop(6, inv=outer6)
    P.loop(7, inv=inner6)
    rad = lambda L: [("radians %d%d" % (u, v), Implies(And(S.on(u, v), S.point(u, v) < L["i"]), And(L.at(L["x_rad"], S.point(u, v), F64) == V(L, "x", S.point(u, v)) * D2R, L.at(L["y_rad"], S.point(u, v), F64) == V(L, "y", S.point(u, v)) * D2R))) for u, v in S.corners()]
    P.loop(8, inv=lambda L: late(L) + [("i", And(0 <= L["i"], L["i"] <= nxp * nyp))] + grid1(L) + [have(L, m) for m in ("dx", "dy")] + rad(L))
    pair("area", 9, 10, grid1)
    pair("angle_dx", 11, 12, grid1)
    P.run()
    for n, f in grid1(P.post):
        P.ensures("points below the join row are on their lines, points above it on the transformed ones: " + n, f)
    for k in order:
        P.ensures("%s belongs to its own points" % k, have(P.post, k)[1])
    return P


def p_tp():
    """tp_trans: the transformed point, in the turn after the reference"""
    LAM, PHI = uf("bp_lam", 4), uf("bp_phi", 4)

    def rng(c):
        lon, lo = c.args
        r = fresh("lon", R)
        c.assume_all(And(lo <= r, r <= lo + 360))
        c.assume_all(r == InR(lon, lo))
        return r
    InR = uf("lon_in_range", 2)
    ATAN2, ACOS, FM = uf("m_atan2", 2), uf("m_acos", 1), uf("m_fmod", 2)
    P = Proof(TU, "tp_trans", contracts={"bp_lam": lambda c: LAM(*c.args), "bp_phi": lambda c: PHI(*c.args), "lon_in_range": rng, "atan2": lambda c: ATAN2(*c.args), "acos": lambda c: ACOS(*c.args), "fmod": lambda c: FM(*c.args),
                                         "atan": lambda c: m_atan(*c.args), "tan": lambda c: m_tan(*c.args)})
    a = P.a
    for k in ("lon", "lat"):
        P.elem(a[k], F64)
        P.length(a[k], 1)
    lon, lat = P.pre.at(a["lon"], None, F64), P.pre.at(a["lat"], None, F64)
    P.run()
    X, Y = P.post.at(a["lon"], None, F64), P.post.at(a["lat"], None, F64)
    lamc, phic = LAM(lon, lat, a["bpeq"], a["rp"]) * D2R, PHI(lon, lat, a["bpsp"], a["bpnp"]) * D2R
    top = absr(lat - 90) < SMALLD
    pole = And(Not(top), absr(lamc) < SMALLD, absr(phic) < SMALLD)
    colat = ACOS(m_cos(lamc) * m_cos(phic))
    P.ensures("the geographic pole", Implies(pole, And(Y == 90, X == a["lon_ref"])))
    P.ensures("latitude follows the distance from the bipolar centre", Implies(Not(pole), Y == (real(math.pi * 0.5) - 2 * m_atan(a["rp"] * m_tan(colat / 2))) * R2D))
    P.ensures("longitude on the last row is that of one of the two poles", Implies(top, Or(X == InR(a["lon_start"], a["lon_ref"]), X == a["lon_start"] + 180)))
    P.ensures("one pole", Implies(And(top, phic > 0), X == InR(a["lon_start"], a["lon_ref"])))
    P.ensures("the other pole", Implies(And(top, phic <= 0), X == a["lon_start"] + 180))
    P.ensures("longitude follows the previous one within a turn", Implies(Not(top), And(a["lon_ref"] <= X, X <= a["lon_ref"] + 360)))
    P.ensures("longitude of the transformed point", Implies(And(Not(top), Not(pole)), X == InR(FM(a["lam0"] + real(math.pi) + real(math.pi / 2) - ATAN2(m_sin(lamc), m_tan(phic)), real(2 * math.pi)) * R2D, a["lon_ref"])))
    return P


def p_spectral():
    """create_spectral_grid: evenly spaced meridians, parallels at the nodes, cell sides at the partial sums of the weights"""
    P = Proof(LL, "create_spectral_grid", contracts={})
    a = P.a
    for k in ("nlon", "nlat", "isc", "iec", "jsc", "jec"):
        P.elem(a[k], I32)
        P.length(a[k], 1)
    for k in ("x", "y", "dx", "dy", "area", "angle_dx"):
        P.elem(a[k], F64)
    I = lambda k: P.pre.at(a[k], None, I32)
    nx, ny = I("nlon"), I("nlat")
    ni, nj, nh = z3.Ints("meridians parallels hemisphere")
    P.requires(nx == 2 * ni, ny == 2 * nj, nj == 2 * nh, ni >= 1, nh >= 1)
    gi, gj = P.ghost("i"), P.ghost("j")
    P.requires(0 <= gi, gi < ni, 0 <= gj, gj < nj)
    SW = z3.Function("sum_of_weights", Z, R)
    P.requires(SW(iv(0)) == 0)
    P.eng.natdiv = True
    dlon = 360 / toR(ni)
    A = lambda L, k, t: L.at(L[k], simp(t), F64)
    const = lambda L: [("size", And(L["nx"] == nx, L["ny"] == ny, L["nxp"] == nx + 1, L["nyp"] == ny + 1, L["ni"] == ni, L["nj"] == nj, L["dlon"] == dlon))]
    lon = lambda L, hi: [("lon", Implies(gi < hi, A(L, "lon", gi) == toR(gi) * dlon))]
    lonb = lambda L, hi: [("lonb", Implies(gi < hi, A(L, "lonb", gi) == (toR(gi) - real(0.5)) * dlon)), ("last lonb", Implies(ni < hi, A(L, "lonb", ni) == (toR(ni) - real(0.5)) * dlon))]
    # nodes and weights of both hemispheres mirror each other
    node = lambda L, j: If(j < nh, -A(L, "sin_hem", j), A(L, "sin_hem", nj - 1 - j))
    wt = lambda L, j: If(j < nh, A(L, "wts_hem", j), A(L, "wts_hem", nj - 1 - j))
    q = z3.Int("q")

    def mirrored(L, hi):
        cond = lambda j: And(0 <= j, j < nj, Or(j < hi, nj - 1 - j < hi))
        return [("node", Implies(cond(gj), A(L, "sin_lat", gj) == node(L, gj))), ("weights", forall([q], Implies(cond(q), A(L, "wts_lat", q) == wt(L, q)), [A(L, "wts_lat", q)]))]
    base = lambda L: const(L) + lon(L, ni) + lonb(L, ni + 1)
    rng = lambda L, v, lo, hi: [(v, And(lo <= L[v], L[v] <= hi))]
    P.loop(0, inv=lambda L: const(L) + rng(L, "i", 0, ni) + lon(L, L["i"]))
    P.loop(1, inv=lambda L: const(L) + rng(L, "i", 0, ni + 1) + lon(L, ni) + lonb(L, L["i"]))
    P.loop(2, inv=lambda L: base(L) + rng(L, "j", 0, nh))
    P.loop(3, inv=lambda L: base(L) + rng(L, "j", 0, nh - 1) + [("iter", L["iter"] >= 1), ("not converged yet", L["converge"] == 0)])
    P.loop(4, inv=lambda L: base(L) + rng(L, "j", 0, nh - 1) + [("i", L["i"] >= 1), ("iter", And(L["iter"] >= 1, L["iter"] <= 10)), ("not converged yet", L["converge"] == 0)])
    P.loop(5, inv=lambda L: base(L) + rng(L, "j", 0, nh) + mirrored(L, L["j"]))
    lat = lambda L, hi: [("lat", Implies(gj < hi, A(L, "lat", gj) == m_asin(A(L, "sin_lat", gj)) * R2D))]
    P.loop(6, inv=lambda L: base(L) + rng(L, "j", 0, nj) + mirrored(L, nh) + lat(L, L["j"]))

    def latb(L, hi):
        want = If(gj == 0, z3.RealVal(-90), m_asin(SW(gj) - 1) * R2D)
        return [("latb", Implies(gj < hi, A(L, "latb", gj) == want)), ("last latb", A(L, "latb", nj) == 90), ("first latb", A(L, "latb", iv(0)) == -90)]

    def sums(L):
        j = L["j"]
        if not P.eng.dry:
            for k in (simp(j - 1), simp(j - 2)):
                P.eng.facts.append(Implies(And(0 <= k, k < nj), SW(simp(k + 1)) == SW(k) + wt(L, k)))
        return base(L) + rng(L, "j", 1, nj) + mirrored(L, nh) + lat(L, nj) + latb(L, j) + [("sum", L["sum_wts"] == SW(j - 1))]
    P.loop(7, inv=sums)
    done = lambda L: base(L) + mirrored(L, nh) + lat(L, nj) + latb(L, nj)
    xb0 = lambda L, hi: [("x sides", Implies(gi < hi, A(L, "xb", 2 * gi) == (toR(gi) - real(0.5)) * dlon)), ("last x side", Implies(ni < hi, A(L, "xb", 2 * ni) == (toR(ni) - real(0.5)) * dlon))]
    xb1 = lambda L, hi: [("x centres", Implies(gi < hi, A(L, "xb", 2 * gi + 1) == toR(gi) * dlon))]
    yb0 = lambda L, hi: [("y sides", Implies(gj < hi, A(L, "yb", 2 * gj) == If(gj == 0, z3.RealVal(-90), m_asin(SW(gj) - 1) * R2D))), ("last y side", Implies(nj < hi, A(L, "yb", 2 * nj) == 90)), ("first y side", Implies(hi > 0, A(L, "yb", iv(0)) == -90))]
    yb1 = lambda L, hi: [("y centres", Implies(gj < hi, A(L, "yb", 2 * gj + 1) == m_asin(node(L, gj)) * R2D))]
    P.loop(8, inv=lambda L: done(L) + rng(L, "i", 0, ni + 1) + xb0(L, L["i"]))
    P.loop(9, inv=lambda L: done(L) + rng(L, "i", 0, ni) + xb0(L, ni + 1) + xb1(L, L["i"]))
    P.loop(10, inv=lambda L: done(L) + rng(L, "j", 0, nj + 1) + xb0(L, ni + 1) + xb1(L, ni) + yb0(L, L["j"]))
    P.loop(11, inv=lambda L: done(L) + rng(L, "j", 0, nj) + xb0(L, ni + 1) + xb1(L, ni) + yb0(L, nj + 1) + yb1(L, L["j"]))

    def setg(c):
        L = LoopCtx(c.eng, c.eng.frames[-1], c.st, None, None)
        c.require("points of both lines", And(c.args[0] == nx + 1, c.args[1] == ny + 1, *[c.args[2 + k] == I(n) for k, n in enumerate(("isc", "iec", "jsc", "jec"))]))
        c.require("output arrays", And(*[same(p, a[n]) for p, n in zip(c.args[8:], ("x", "y", "dx", "dy", "area", "angle_dx"))]))
        c.require("area algorithm", c.args[-1] == a["use_great_circle_algorithm"])
        X, Y = (lambda t: c.at(c.args[6], simp(t), F64)), (lambda t: c.at(c.args[7], simp(t), F64))
        c.require("meridians are spaced evenly", And(X(2 * gi + 1) == toR(gi) * dlon, X(2 * gi) == (toR(gi) - real(0.5)) * dlon, X(2 * ni) == (toR(ni) - real(0.5)) * dlon))
        c.require("parallels through the nodes, mirrored at the equator", Y(2 * gj + 1) == m_asin(node(L, gj)) * R2D)
        c.require("outer sides at the poles", And(Y(iv(0)) == -90, Y(2 * nj) == 90))
        c.require("sides at the partial sums of the weights, mirrored at the equator", Implies(gj > 0, Y(2 * gj) == m_asin(SW(gj) - 1) * R2D))
        c.set_ghost("made", iv(1))
    P.eng.contracts.update({"set_regular_lonlat_grid": setg, "mpp_error": die, "asin": lambda c: m_asin(c.args[0])})
    P.st0.mem[("ghost_made", (), I64)] = iv(0)
    P.run()
    P.ensures("the grid is made", P.final.mem[("ghost_made", (), I64)] == 1)
    return P


def proofs(tier):
    return [("compute_grid_bound %s" % n, p_bound(k)) for k, n in enumerate(("none", "t_cell", "c_cell"))] + [
        ("legacy bound t_cell", p_legacy(1)), ("legacy bound c_cell", p_legacy(2)), ("legacy size", p_legacy_size),
        ("distant", p_distant), ("spherical_dist", p_sph), ("cartesian_dist", p_cart), ("cartesian_box_area", p_carea), ("box_area", p_box), ("lon_in_range", p_range),
        ("regular lonlat", lonlat("set_regular_lonlat_grid", ("spherical_dist", c_sph, sph), ("box_area", c_box, a_box))),
        ("f plane", lonlat("set_f_plane_grid", ("cartesian_dist", c_cart, cart), ("cartesian_box_area", c_carea, a_cart), "f_plane_latitude")),
        ("create regular", create("create_regular_lonlat_grid", "set_regular_lonlat_grid")), ("create f_plane", create("create_f_plane_grid", "set_f_plane_grid", "f_plane_latitude")),
        ("create_vgrid", p_vgrid), ("simple cartesian", p_simple), ("tripolar", p_tripolar), ("tp_trans", p_tp), ("spectral", p_spectral)]


# ------------------------------------------------------------ stand-in
RADIUS = 6371000.0
DEG = math.pi / 180


def near(a, b, rel=1e-9, ab=1e-9):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= ab + rel * np.maximum(np.abs(a), np.abs(b))))


def o_legacy(b, d, cen, stretch=1.0):
    """cells of a line prescribed by resolutions: None if a region has no whole number of cells"""
    w = []
    for l in range(len(b) - 1):
        r = d[l + 1] * (stretch if l == len(b) - 2 else 1.0)
        av, ch = 0.5 * (d[l] + r), r - d[l]
        wid = abs(b[l + 1] - b[l])
        an = wid / av
        m = n = int(round(an))
        if stretch != 1 and l == len(b) - 2:
            # as many cells as fit
            s, n = 0.5 * d[l] - 0.5 * d[l + 1], 0
            while m >= 1:
                k = av - 0.5 * ch * math.cos(math.pi / m * (n + 1.0))
                if abs(s + k - wid * (1 + 1e-5)) < 1e-7:
                    return None
                if s + k > wid * (1 + 1e-5):
                    break
                s, n = s + k, n + 1
        elif abs(an - n) > 1e-5:
            return None
        if n < 1:
            return None
        w += [av - 0.5 * ch * math.cos(math.pi / m * (k + (0.5 if cen == "t_cell" else 1.0))) for k in range(n)]
    g = [b[0]]
    if cen == "t_cell":
        for x in w:
            g += [g[-1] + 0.5 * x, g[-1] + x]
    else:
        g.append(b[0] + 0.5 * d[0])
        for x in w[:-1]:
            g += [g[-1] + 0.5 * x, g[-1] + x]
        g.append(g[-1] + 0.5 * w[-1])
    return np.array(g)


def o_line(g, b, n, cen):
    """what is wrong with a line prescribed by the number of cells of each region"""
    N = sum(n)
    if len(g) != N + 1:
        return "%d points for %d cells" % (len(g), N)
    pos = np.concatenate([[0], np.cumsum(n)])
    if cen == "c_cell":
        if not near([g[0], g[-1]], [b[0], b[-1]]):
            return "ends at %r, %r, not at %r, %r" % (g[0], g[-1], b[0], b[-1])
        e = [k for k in range(2, N - 1, 2) if not near(g[k], 0.5 * (g[k - 1] + g[k + 1]))]
        if e:
            return "line %d is not midway between its neighbours" % e[0]
    else:
        e = [k for k in range(len(b)) if not near(g[pos[k]], b[k])]
        if e:
            return "bound %d is %r, line %d is at %r" % (e[0], b[e[0]], pos[e[0]], g[pos[e[0]]])
        for k in range(len(n)):
            lo, hi = sorted(b[k:k + 2])
            seg = g[pos[k]:pos[k + 1] + 1]
            if seg.min() < lo - 1e-9 * max(1, abs(lo)) or seg.max() > hi + 1e-9 * max(1, abs(hi)):
                return "lines of region %d leave it" % k
        if cen == "t_cell":
            e = [k for k in range(1, N, 2) if not near(g[k], 0.5 * (g[k - 1] + g[k + 1]))]
            if e:
                return "centre %d is not midway between its neighbours" % e[0]
    up = 1 if b[-1] > b[0] else -1
    if (np.diff(g) * up < -1e-9).any():
        return "lines are not in order"
    if len(b) == 2 and not near(g, np.linspace(b[0], b[1], N + 1), ab=1e-7):
        return "a single region is not spaced evenly"
    return None


def xyz(lon, lat):
    return np.array([np.cos(lat) * np.cos(lon), np.cos(lat) * np.sin(lon), np.sin(lat)])


def o_gcarea(lon, lat):
    """area of a quadrilateral of great circles (radians)"""
    v = xyz(np.array(lon), np.array(lat)).T

    def tri(a, b, c):
        return 2 * math.atan2(np.dot(a, np.cross(b, c)), 1 + np.dot(a, b) + np.dot(b, c) + np.dot(c, a))
    return abs(tri(v[0], v[1], v[2]) + tri(v[0], v[2], v[3])) * RADIUS ** 2


def o_lonlat_area(lon, lat):
    """area of a polygon of straight lines in longitude and latitude (radians)"""
    s = 0.0
    for k in range(4):
        x1, y1, x2, y2 = lon[k], lat[k], lon[(k + 1) % 4], lat[(k + 1) % 4]
        s -= (x2 - x1) * (math.sin((y1 + y2) / 2) if abs(y2 - y1) < 1e-9 else (math.cos(y1) - math.cos(y2)) / (y2 - y1))
    return s * RADIUS ** 2


def apart(x, y):
    d = (x - y) % 360.0
    return min(d, 360.0 - d)


def o_bipolar(x, y, x0, rp):
    """bipolar longitude and latitude of a point of the nominal grid (degrees)"""
    lam = 2 * math.atan(math.tan((90 - y) * DEG / 2) / rp) / DEG
    if apart(x, x0 + 90) < 90:
        lam = -lam
    phi = -90 + apart(x, x0 + 180) if apart(x, x0 + 180) < 90 else 90 - apart(x, x0)
    return lam, phi


def o_metric(lam, phi, rp):
    chi = math.acos(max(-1.0, min(1.0, math.cos(lam * DEG) * math.cos(phi * DEG))))
    return rp / math.cos(chi / 2) ** 2 / (1 + rp ** 2 * math.tan(chi / 2) ** 2)


def o_tri(c, g, xb, yb):
    """a tripolar grid"""
    x, y, dx, dy, area, ang = g
    ny, nx = area.shape
    x0 = c["xb"][0]
    J = int(np.argmin(np.abs(yb - c["join"])))
    if sorted(np.abs(yb - c["join"]))[1] - np.abs(yb - c["join"])[J] < 1e-9 or J == 0 or yb[J] > 89:
        return None
    rp = math.tan((90 - yb[J]) * DEG / 2)
    for j in range(ny + 1):
        if j < J:
            if not near(x[j], xb) or not near(y[j], np.full(nx + 1, yb[j])):
                return "row %d below the join row is not on its parallel" % j
            continue
        for i in range(nx + 1):
            lam, phi = o_bipolar(xb[i], yb[j], x0, rp)
            chi = math.acos(max(-1.0, min(1.0, math.cos(lam * DEG) * math.cos(phi * DEG))))
            lat = 90 - 2 * math.atan(rp * math.tan(chi / 2)) / DEG
            lon = x0 + 90 + 270 - math.atan2(math.sin(lam * DEG) * math.cos(phi * DEG), math.sin(phi * DEG)) / DEG
            if abs(y[j, i] - lat) > 1e-2:
                return "latitude of point %d,%d is %r, not %r" % (i, j, y[j, i], lat)
            if abs(yb[j] - 90) > 1e-3 and lat < 89.9 and apart(x[j, i], lon) > 1e-2:
                return "longitude of point %d,%d is %r, not %r" % (i, j, x[j, i], lon)
            if abs(yb[j] - 90) < 1e-5 and lat < 89.9 and apart(x[j, i], x0 if phi > 0 else x0 + 180) > 1e-2:
                return "longitude of point %d,%d on the fold is %r" % (i, j, x[j, i])
    h = lambda v, la: RADIUS * math.cos(la * DEG) if v else RADIUS
    for k, D in (("dx", dx), ("dy", dy)):
        for j in range(D.shape[0]):
            for i in range(D.shape[1]):
                i2, j2 = (i + 1, j) if k == "dx" else (i, j + 1)
                if j < J:
                    w = abs(xb[i2] - xb[i]) * DEG * RADIUS * math.cos(yb[j] * DEG) if k == "dx" else abs(yb[j2] - yb[j]) * DEG * RADIUS
                else:
                    p, q = o_bipolar(xb[i], yb[j], x0, rp), o_bipolar(xb[i2], yb[j2], x0, rp)
                    m = [o_metric(*t, rp) if abs(t[0] * DEG) >= 1e-4 or abs(t[1] * DEG) >= 1e-4 or abs(b - 90) < 1e-4 else 1.0 for t, b in ((p, yb[j]), (q, yb[j2]))]
                    if k == "dx":
                        w = abs(p[1] - q[1]) * DEG * (m[0] + m[1]) / 2 * RADIUS
                    else:
                        w = abs(p[0] - q[0]) * DEG * (m[0] * h(1, p[1]) + m[1] * h(1, q[1])) / 2
                if not near(D[j, i], w, rel=1e-6, ab=1.0):
                    return "%s[%d,%d] is %r, not %r" % (k, i, j, D[j, i], w)
    for j in range(ny):
        for i in range(nx):
            co = [(j, i), (j, i + 1), (j + 1, i + 1), (j + 1, i)]
            lo, la = np.array([x[t] for t in co]), np.array([y[t] for t in co])
            if j >= J and (np.abs(la).max() > 85 or np.ptp(lo) > 60 or abs(lo.mean()) % 360 < 0):
                continue
            if c["gca"]:
                w = o_gcarea(lo * DEG, la * DEG)
            elif j < J:
                w = abs(lo[1] - lo[0]) * DEG * abs(math.sin(la[2] * DEG) - math.sin(la[0] * DEG)) * RADIUS ** 2
            else:
                w = o_lonlat_area(lo * DEG, la * DEG)
            if not near(area[j, i], w, rel=1e-5 if j >= J or c["gca"] else 1e-8, ab=1e-6 * RADIUS):
                return "area of cell %d,%d is %r, not %r" % (i, j, area[j, i], w)
    for j in range(ny + 1):
        for i in range(nx + 1):
            w = 0.0
            if j >= J and 0 < i < nx:
                w = math.atan2(y[j, i + 1] - y[j, i - 1], (x[j, i + 1] - x[j, i - 1]) * math.cos(y[j, i] * DEG)) / DEG
            if abs(ang[j, i] - w) > 1e-6:
                return "angle at %d,%d is %r, not %r" % (i, j, ang[j, i], w)
    return None


def o_plain(c, g, xb, yb):
    x, y, dx, dy, area, ang = g
    ny, nx = area.shape
    X, Y = np.meshgrid(xb, yb)
    if not near(x, X) or not near(y, Y):
        return "points are not on the lines"
    kind = c["type"]
    if kind == "simple_cartesian_grid":
        w = [np.full(dx.shape, c["sdx"]), np.full(dy.shape, c["sdy"]), np.full(area.shape, c["sdx"] * c["sdy"])]
    else:
        ddx, ddy = np.abs(np.diff(X, axis=1)), np.abs(np.diff(Y, axis=0))
        cy = np.cos(Y * DEG) if kind in ("regular_lonlat_grid", "spectral_grid") else np.full(Y.shape, math.cos(c["plane"] * DEG))
        w = [ddx * DEG * RADIUS * cy[:, :-1], ddy * DEG * RADIUS]
        if kind in ("regular_lonlat_grid", "spectral_grid"):
            if c["gca"]:
                w.append(np.array([[o_gcarea([X[j, i] * DEG, X[j, i + 1] * DEG, X[j, i + 1] * DEG, X[j, i] * DEG], [Y[j, i] * DEG, Y[j, i] * DEG, Y[j + 1, i] * DEG, Y[j + 1, i] * DEG]) for i in range(nx)] for j in range(ny)]))
            else:
                w.append(np.diff(X, axis=1)[:-1] * DEG * np.diff(np.sin(Y * DEG), axis=0)[:, :-1] * RADIUS ** 2)
        else:
            w.append(np.diff(X, axis=1)[:-1] * np.diff(Y, axis=0)[:, :-1] * DEG ** 2 * RADIUS ** 2 * math.cos(c["plane"] * DEG))
    for n, v, u in zip(("dx", "dy", "area"), (dx, dy, area), w):
        if not near(v, u, rel=1e-6 if n == "area" and c.get("gca") else 1e-8, ab=1e-3 if n != "area" else 1e-7 * np.abs(u).max()):
            k = np.unravel_index(np.argmax(np.abs(v - u)), v.shape)
            return "%s%r is %r, not %r" % (n, tuple(map(int, k[::-1])), v[k], u[k])
    if np.any(ang != 0):
        return "a rotation angle is not zero"
    return None


def search(S):
    import os
    import shutil
    import subprocess
    from engine import search as H, nc
    from engine.irparse import scratch
    hg = H.tool("make_hgrid", ["src/make-hgrid/%s.c" % k for k in ("make_hgrid", "create_lonlat_grid", "create_grid_from_file", "create_conformal_cubic_grid", "create_gnomonic_cubic_grid")])
    vg = H.tool("make_vgrid", ["src/make-vgrid/make_vgrid.c", VG])
    L = lambda v: ",".join(repr(t) for t in v)

    def bounds(r, lo, hi, n, cen):
        while True:
            b = sorted([lo, hi] + [round(r.uniform(lo, hi), 1) for _ in range(n - 1)])
            if min(np.diff(b)) > (hi - lo) / 12:
                return b

    def legacy(r, lo, hi, n, cen):
        """bounds and resolutions with whole numbers of cells"""
        d = [r.choice([1.0, 2.0, 4.0, 5.0, 0.1, 0.3, 0.7]) for _ in range(n + 1)]
        b = [lo]
        for k in range(n):
            b.append(b[-1] + r.randint(1, 7) * 0.5 * (d[k] + d[k + 1]))
        return b, d

    def gen(r, k):
        kind = ["regular_lonlat_grid", "tripolar_grid", "f_plane_grid", "simple_cartesian_grid", "spectral_grid", "tripolar_grid", "beta_plane_grid"][k % 7]
        c = dict(type=kind, gca=r.random() < 0.3, cen=r.choice(["none", "t_cell", "c_cell"]), plane=r.choice([0.0, 30.0, -45.0, 60.0]), legacy=False)
        lon0 = r.choice([0.0, -280.0, 30.0, -180.0, 7.5])
        if kind == "spectral_grid":
            c.update(nx=[2 * r.randint(1, 8)], ny=[4 * r.randint(1, 6)])
            return c
        if kind == "simple_cartesian_grid":
            c.update(xb=[r.uniform(-10, 10), r.uniform(11, 90)], yb=[r.uniform(-60, 0), r.uniform(1, 60)], nx=[r.randint(1, 9)], ny=[r.randint(1, 9)], sdx=r.uniform(1, 9), sdy=r.uniform(10, 20))
            return c
        m = 1 if c["cen"] == "none" else 2
        tri = kind == "tripolar_grid"
        rx, ry = (1 if tri else r.randint(1, 3)), r.randint(1, 3)
        c["legacy"] = r.random() < 0.4 and (tri or True)
        if c["legacy"]:
            if c["cen"] == "none":
                c["cen"] = "t_cell"
            c["xb"], c["dx"] = legacy(r, lon0, None, rx, c["cen"]) if not tri else ([lon0, lon0 + 360], [r.choice([20.0, 30.0, 45.0])] * 2)
            if tri:
                d = r.choice([10.0, 15.0])
                c["yb"], c["dy"] = [90 - d * r.randint(4, 11), 90.0], [d, d]
            else:
                c["yb"], c["dy"] = legacy(r, r.choice([-50.0, 10.0]), None, ry, c["cen"])
                if max(abs(v) for v in c["yb"]) > 90:
                    c["yb"], c["dy"] = [0.0, 40.0], [10.0, 10.0]
        else:
            c["xb"] = [lon0, lon0 + 360] if tri else bounds(r, lon0, lon0 + r.choice([360.0, 90.0]), rx, c["cen"])
            c["yb"] = bounds(r, -80.0 if tri else r.choice([-90.0, -60.0]), 90.0 if tri else r.choice([90.0, 45.0]), ry, c["cen"])
            c["nx"] = [8 * r.randint(1, 4)] if tri else [m * r.randint(1, 5) for _ in range(rx)]
            c["ny"] = [m * r.randint(1, 6) for _ in range(ry)]
        c["join"] = r.choice([65.0, 50.0, 60.3])
        return c

    def command(c):
        cmd = ["--grid_type", c["type"]]
        if "xb" in c:
            cmd += ["--nxbnds", str(len(c["xb"])), "--nybnds", str(len(c["yb"])), "--xbnds", L(c["xb"]), "--ybnds", L(c["yb"])]
        if c["legacy"]:
            cmd += ["--dlon", L(c["dx"]), "--dlat", L(c["dy"])]
        else:
            cmd += ["--nlon", L(c["nx"]), "--nlat", L(c["ny"])]
        if "sdx" in c:
            cmd += ["--simple_dx", repr(c["sdx"]), "--simple_dy", repr(c["sdy"])]
        elif c["type"] != "spectral_grid":
            cmd += ["--center", c["cen"]]
        if c["type"] == "tripolar_grid":
            cmd += ["--lat_join", repr(c["join"])]
        if c["type"] in ("f_plane_grid", "beta_plane_grid"):
            cmd += ["--f_plane_latitude", repr(c["plane"])]
        elif c["gca"] and "sdx" not in c:
            cmd += ["--great_circle_algorithm"]
        return cmd

    def work(name, tool, cmd):
        d = os.path.join(scratch(), "%s%d" % (name, os.getpid()))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        try:
            r = subprocess.run([tool] + cmd + ["--grid_name", "g"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return "the tool does not end", None
        if r.returncode:
            return "ended with status %d: %s" % (r.returncode, r.stderr.decode(errors="replace").strip().split("\n")[-1][:200]), None
        subprocess.run(["nccopy", "-k", "classic", "g.nc", "c.nc"], cwd=d, check=True)
        return None, nc.read(os.path.join(d, "c.nc"))[1]

    def run(c):
        c = dict(c)
        if c["type"] in ("f_plane_grid", "beta_plane_grid", "simple_cartesian_grid"):
            c["gca"] = False
        want = [None, None]
        if c["legacy"]:
            want = [o_legacy(c["xb"], c["dx"], c["cen"]), o_legacy(c["yb"], c["dy"], c["cen"])]
            if any(w is None for w in want):
                return None
        e, vs = work("hg", hg, command(c))
        if e:
            return "make_hgrid %s" % e
        g = [np.asarray(vs[k][2], float) for k in ("x", "y", "dx", "dy", "area", "angle_dx")]
        ny, nx = g[4].shape
        if [a.shape for a in g] != [(ny + 1, nx + 1), (ny + 1, nx + 1), (ny + 1, nx), (ny, nx + 1), (ny, nx), (ny + 1, nx + 1)]:
            return "shapes %r" % [a.shape for a in g]
        xb, yb = g[0][0], g[1][:, 0]
        if c["type"] == "spectral_grid":
            n, m = c["nx"][0] // 2, c["ny"][0] // 2
            z, w = np.polynomial.legendre.leggauss(m)
            sides = np.arcsin(np.clip(np.concatenate([[-1], np.cumsum(w) - 1]), -1, 1)) / DEG
            sides[0], sides[-1] = -90, 90
            wy = np.empty(2 * m + 1)
            wy[0::2], wy[1::2] = sides, np.arcsin(z) / DEG
            wx = (np.arange(2 * n + 1) - 1) * 180.0 / n
            if not near(xb, wx, ab=1e-9) or not near(yb, wy, ab=1e-7):
                return "lines of the spectral grid: x %r, y %r; expected x %r, y %r" % (xb.tolist(), yb.tolist(), wx.tolist(), wy.tolist())
        elif c["type"] == "simple_cartesian_grid":
            if not near(xb, np.linspace(*c["xb"], c["nx"][0] + 1)) or not near(yb, np.linspace(*c["yb"], c["ny"][0] + 1)):
                return "lines are not spaced evenly between the bounds"
        elif c["legacy"]:
            if not near(xb, want[0], ab=1e-7):
                return "x lines %r, not %r" % (xb.tolist(), want[0].tolist())
            if c["type"] != "tripolar_grid":
                if not near(yb, want[1], ab=1e-7):
                    return "y lines %r, not %r" % (yb.tolist(), want[1].tolist())
            else:
                yb = want[1]
        else:
            e = o_line(xb, c["xb"], c["nx"], c["cen"])
            if e:
                return "x lines: " + e
            if c["type"] == "tripolar_grid":
                # the lines above the join row show only transformed: take them from a plain grid
                e, v2 = work("hg2", hg, ["--grid_type", "regular_lonlat_grid", "--center", c["cen"], "--nxbnds", "2", "--nybnds", str(len(c["yb"])), "--xbnds", L(c["xb"]), "--ybnds", L(c["yb"]), "--nlon", L(c["nx"]), "--nlat", L(c["ny"])])
                if e:
                    return "make_hgrid " + e
                yb = np.asarray(v2["y"][2], float)[:, 0]
            e = o_line(yb, c["yb"], c["ny"], c["cen"])
            if e:
                return "y lines: " + e
        if np.abs(np.diff(xb)).max() > 120 or (c["gca"] and np.abs(np.diff(yb)).max() > 100):
            return None         # cells of half a turn and more: the areas go the short way round
        return (o_tri if c["type"] == "tripolar_grid" else o_plain)(c, g, xb, yb)
    S.parallel("make_hgrid", gen, run, S.secs(15, 90), rule="regular, tripolar, plane, simple Cartesian and spectral grids with up to 3 regions per axis and 30 points; every line, length, area and angle recomputed")

    def genv(r, k):
        n = r.randint(1, 4)
        if k % 2:
            d = [r.choice([5.0, 10.0, 20.0, 50.0, 0.1, 3.3]) for _ in range(n + 1)]
            st = r.choice([1.1, 0.9, 2.0]) if k % 4 == 3 else 1.0
            cen = "c_cell" if st != 1.0 else r.choice(["c_cell", "t_cell"])
            b = [r.choice([0.0, 10.0])]
            for q in range(n):
                b.append(b[-1] + r.randint(1, 8) * 0.5 * (d[q] + d[q + 1]))
            return dict(b=b, d=d, cen=cen, st=st)
        cen = r.choice(["none", "t_cell", "c_cell"])
        b = [r.choice([0.0, 10.0, -3.0])]
        for q in range(n):
            b.append(b[-1] + round(r.uniform(1, 900), 1))
        return dict(b=b, n=[r.randint(1, 12) * (1 if cen == "none" else 2) for _ in range(n)], cen=cen)

    def runv(c):
        cmd = ["--nbnds", str(len(c["b"])), "--bnds", L(c["b"]), "--center", c["cen"]]
        cmd += ["--dbnds", L(c["d"]), "--stretch", repr(c["st"])] if "d" in c else ["--nz", L(c["n"])]
        want = None
        if "d" in c:
            want = o_legacy(c["b"], c["d"], c["cen"], c["st"])
            if want is None:
                return None
        e, vs = work("vg", vg, cmd)
        if e:
            return "make_vgrid %s" % e
        g = np.asarray(vs["zeta"][2], float)
        if "d" in c:
            return None if near(g, want, ab=1e-7) else "zeta %r, not %r" % (g.tolist(), want.tolist())
        e = o_line(g, c["b"], c["n"], c["cen"])
        return "zeta: " + e if e else None

    S.parallel("make_vgrid", genv, runv, S.secs(4, 40), rule="up to 4 regions, both algorithms; every line recomputed")
