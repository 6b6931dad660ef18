"""C13: topography respects its levels, its land mask and its prescription"""
import math
import random
from fractions import Fraction
import numpy as np
import z3
from z3 import Implies, If, Or, Not
from engine.sym import AttachError
from .common import *
from .c08 import same

TP = "src/make-topog/topog.c"
R, Z = z3.RealSort(), z3.IntSort()
ASSUMPTIONS = ["levels are positive and increase; depths handed to the filter are not negative", "the smallest thickness allowed for a partial cell is at most the thickness of its level",
               "the number of points of a grid fits an int"]
TRUSTED = ["malloc succeeds", "exp, cos, sin as mathematical functions with |cos|, |sin| <= 1", "printf", "mpp_error does not return"]
real = lambda x: z3.RealVal(str(Fraction(x)))
toR = z3.ToReal
mn = lambda *v: v[0] if len(v) == 1 else (lambda a, b: If(a < b, a, b))(v[0], mn(*v[1:]))
min2, max2 = (lambda a, b: If(a < b, a, b)), (lambda a, b: If(a > b, a, b))
min4 = lambda a, b, c, d: min2(min2(a, b), min2(c, d))
max4 = lambda a, b, c, d: max2(max2(a, b), max2(c, d))


def die(c):
    c.noreturn = True


class Grid:
    """flattened index arithmetic"""
    def __init__(s, P):
        x, y, X, Y, x2, y2 = z3.Ints("lx ly lX lY lx2 ly2")
        s.flat = P.lemma("flattened index", [x, y, X, Y], Implies(And(0 <= x, x < X, 0 <= y, y < Y), And(y * X + x >= 0, y * X + x < X * Y)))
        s.uniq = P.lemma("flattened index is unique", [x, y, x2, y2, X], Implies(And(0 <= x, x < X, 0 <= x2, x2 < X, y * X + x == y2 * X + x2), And(x == x2, y == y2)))
        s.cong = P.lemma("equal positions have equal indices", [x, y, x2, y2, X], Implies(And(x == x2, y == y2), y * X + x == y2 * X + x2))


def passed(i, j, gi, gj):
    return Or(j > gj, And(j == gj, i > gi))


# ---------------------------------------------------------------- levels
class Levels:
    """a depth and its bottom level agree"""
    def __init__(s, P, zw, nk, full=None, flat=None):
        s.P, s.nk = P, nk
        P.elem(zw, F64)
        P.length(zw, nk)
        s.Z = lambda k: P.pre.at(zw, simp(k), F64)
        s.full, s.flat = full, flat
        p, q = z3.Int("zp"), z3.Int("zq")
        P.requires(nk >= 1, s.Z(iv(0)) > 0, forall([p, q], Implies(And(0 <= p, p < q, q < nk), s.Z(p) < s.Z(q)), [s.Z(p), s.Z(q)]))
        h1, h2 = z3.Reals("lh1 lh2")
        k1, k2 = z3.Ints("lk1 lk2")
        mono = lambda k1, k2: Implies(And(0 <= k1, k1 < k2, k2 < nk), s.Z(k1) <= s.Z(k2 - 1))
        s.pair = P.lemma("levels of the shallower and of the deeper of two cells", [h1, k1, h2, k2],
                         Implies(And(s.ok(h1, k1), s.ok(h2, k2), mono(k1, k2), mono(k2, k1)), And(s.ok(min2(h1, h2), min2(k1, k2)), s.ok(max2(h1, h2), max2(k1, k2)))))

    def ok(s, h, k):
        o = And(0 <= k, k < s.nk, h > 0, h <= s.Z(k), Implies(k > 0, h > s.Z(k - 1)))
        if s.full is not None:
            o = And(o, Implies(s.full, h == s.Z(k)))
        if s.flat is not None:
            o = And(o, Implies(s.flat, And(k == s.nk - 1, h == s.Z(k))))
        return Or(And(h <= 0, k == -1), o)


def p_min(func, spec, ty):
    def b():
        P = Proof(TP, func)
        P.run()
        P.ensures("the extreme one of the four", P.ret == spec(*P.args))
        return P
    return b


def p_block(func, ty):
    def b():
        sp = min4
        P = Proof(TP, func, contracts={"min4_double": lambda c: min4(*c.args)})
        a = P.a
        ni, i, j = a["ni"], a["i"], a["j"]
        arr = a["ht"] if ty is F64 else a["kmt"]
        nj = P.ghost("nj")
        P.elem(arr, ty)
        P.length(arr, (ni + 2) * (nj + 2))
        P.requires(ni >= 1, nj >= 1, 0 <= i, i <= ni, 0 <= j, j <= nj)
        G = Grid(P)
        for u in (0, 1):
            for v in (0, 1):
                G.flat(simp(i + u), simp(j + v), ni + 2, nj + 2)
        P.run()
        A = lambda u, v: P.pre.at(arr, simp((j + v) * (ni + 2) + i + u), ty)
        P.ensures("smallest of the four cells of the block", P.ret == min4(A(0, 0), A(1, 0), A(0, 1), A(1, 1)))
        return P
    return b


KMIN, KMAX = z3.Function("min_of_levels", Z, Z, Z, Z, Z), z3.Function("max_of_levels", Z, Z, Z, Z, Z)
HMIN, HMAX = z3.Function("min_of_depths", R, R, R, R, R), z3.Function("max_of_depths", R, R, R, R, R)


def named(f, spec):
    def c_(c, *v):
        v = v or c.args
        c.assume_all(f(*v) == spec(*v))
        return f(*v)
    return c_


def block(c, arr, ty, w, i, j):
    A = lambda u, v: c.at(arr, simp((j + v) * w + i + u), ty)
    return named(HMIN if ty is F64 else KMIN, min4)(c, A(0, 0), A(1, 0), A(0, 1), A(1, 1))


def p_isolated(levels):
    def b():
        def ck(ty):
            def f(c):
                n, arr, i, j = c.args
                c.require("block lies in the grid", And(n == ni, 0 <= i, i <= ni, 0 <= j, j <= nj, same(arr, a["ht" if ty is F64 else "kmt"])))
                r = block(c, arr, ty, nip, i, j)
                if levels and ty is F64:
                    k = block(c, a["kmt"], I32, nip, i, j)
                    c.require("shallowest cell of the block agrees with its level", V.ok(r, k))
                    c.assume_all(V.ok(r, k))
                    of[r.get_id()] = k
                return r
            return f

        def mx(c):
            r = named(HMAX, max4)(c)
            if levels:
                ks = [of.get(h.get_id()) for h in c.args]
                if None in ks:
                    raise AttachError("deepest of something else than four blocks")
                k = named(KMAX, max4)(c, *ks)
                c.require("deepest block agrees with its level", V.ok(r, k))
                c.assume_all(V.ok(r, k))
            return r
        of = {}
        P = Proof(TP, "remove_isolated_cells", contracts={"kmin": ck(I32), "hmin": ck(F64), "max4_int": named(KMAX, max4), "max4_double": mx}, timeout=120)
        a = P.a
        ni, nj = a["ni"], a["nj"]
        nip = ni + 2
        P.requires(ni >= 1, nj >= 1)
        N = nip * (nj + 2)
        nk = P.ghost("nk")
        zw = Ptr(P.eng.region("levels", kind="param"))
        full, flat = z3.Bool("g_full"), z3.Bool("g_flat")
        V = Levels(P, zw, nk, full, flat)
        for k, ty in (("ht", F64), ("kmt", I32)):
            P.elem(a[k], ty)
            P.length(a[k], N)
        H = lambda L, q: L.at(a["ht"], simp(q), F64)
        K = lambda L, q: L.at(a["kmt"], simp(q), I32)
        q = z3.Int("q")
        allok = lambda L: forall([q], Implies(And(0 <= q, q < N), V.ok(H(L, q), K(L, q))), [H(L, q), K(L, q)])
        if levels:
            P.requires(forall([q], Implies(And(0 <= q, q < N), V.ok(H(P.pre, q), K(P.pre, q))), [H(P.pre, q)]))
            P.requires(forall([q], Implies(And(0 <= q, q < N), V.ok(H(P.pre, q), K(P.pre, q))), [K(P.pre, q)]))
        gi, gj = P.ghost("i"), P.ghost("j")
        P.requires(0 <= gi, gi <= ni + 1, 0 <= gj, gj <= nj + 1)
        G = Grid(P)
        nine = [(u, v) for v in (-1, 0, 1) for u in (-1, 0, 1)]
        ix = lambda i, j, u=0, v=0: simp((j + v) * nip + i + u)
        njm = If(a["tripolar_grid"] != 0, nj - 1, nj)
        inside = And(1 <= gi, gi <= ni, 1 <= gj, gj <= njm)

        def around(f, mi, ma):
            b = lambda u, v: mi(f(u, v), f(u + 1, v), f(u, v + 1), f(u + 1, v + 1))
            return ma(b(0, 0), b(-1, 0), b(0, -1), b(-1, -1))
        before = lambda u, v: v < 0 or (v == 0 and u < 0)
        # the cells before a cell in the sweep have their final value, the others their first
        mixed = lambda L, F: (lambda u, v: F(L if before(u, v) else P.pre, ix(gi, gj, u, v)))

        def rule(L):
            k = around(mixed(L, K), KMIN, KMAX)
            h = around(mixed(L, H), HMIN, HMAX)
            keep = And(k < 0, a["dont_change_landmask"] != 0)
            k0, h0 = K(P.pre, ix(gi, gj)), H(P.pre, ix(gi, gj))
            k1, h1 = K(L, ix(gi, gj)), H(L, ix(gi, gj))
            same_ = And(k1 == k0, h1 == h0)
            return [("kept", Implies(Or(keep, k == k0), same_)), ("filled", Implies(And(Not(keep), k != k0), And(k1 == k, h1 == h))), ("not deeper", And(k1 <= k0, h1 <= h0))]

        def inv(L):
            i, j = L["i"], L["j"]
            if not P.eng.dry:
                for u, v in nine:
                    G.flat(simp(i + u), simp(j + v), nip, nj + 2)
                    G.flat(simp(gi + u), simp(gj + v), nip, nj + 2)
                    G.uniq(i, j, simp(gi + u), simp(gj + v), nip)
                    G.cong(simp(i + u), simp(j + v), simp(gi + u), simp(gj + v), nip)
                # pairs of the sweep at (i,j)
                cell = lambda u, v: (H(L, ix(i, j, u, v)), K(L, ix(i, j, u, v)))
                both = lambda x, y, f: (f(x[0], y[0]), f(x[1], y[1]))

                def lem(x, y, f):
                    levels and V.pair(x[0], x[1], y[0], y[1])
                    return both(x, y, f)
                bs = []
                for u, v in ((0, 0), (-1, 0), (0, -1), (-1, -1)):
                    x = lem(cell(u, v), cell(u + 1, v), min2)
                    y = lem(cell(u, v + 1), cell(u + 1, v + 1), min2)
                    bs.append(lem(x, y, min2))
                x = lem(bs[0], bs[1], max2)
                y = lem(bs[2], bs[3], max2)
                lem(x, y, max2)
            o = [("nip", L["nip"] == nip), ("last row", L["nj_max"] == njm), ("j", And(1 <= j, j <= max2(njm, iv(0)) + 1)), ("i", And(1 <= i, i <= ni + 1))]
            if levels:
                return o + [("levels", allok(L))]
            for u, v in nine:
                inn = And(0 <= gi + u, gi + u <= ni + 1, 0 <= gj + v, gj + v <= nj + 1)
                o.append(("later %d,%d" % (u, v), Implies(And(inn, Not(And(1 <= gi + u, gi + u <= ni, 1 <= gj + v, gj + v <= njm, passed(i, j, gi + u, gj + v)))),
                                                         And(K(L, ix(gi, gj, u, v)) == K(P.pre, ix(gi, gj, u, v)), H(L, ix(gi, gj, u, v)) == H(P.pre, ix(gi, gj, u, v))))))
            for n, f in rule(L):
                o.append((n, Implies(And(inside, passed(i, j, gi, gj)), f)))
            return o
        P.loop(0, inv=lambda L: [x for x in inv(_At(L, i=iv(1)))])
        P.loop(1, inv=inv)
        P.run()
        post = P.post
        if levels:
            P.ensures("every cell agrees with its level", forall([q], Implies(And(0 <= q, q < N), V.ok(H(post, q), K(post, q))), [H(post, q)]))
            return P
        fill = a["fill_isolated_cells"] != 0
        for n, f in rule(post):
            P.ensures("a cell of the sweep is " + n, Implies(And(fill, inside), f))
        P.ensures("other cells are unchanged", Implies(Or(Not(fill), Not(inside)), And(K(post, ix(gi, gj)) == K(P.pre, ix(gi, gj)), H(post, ix(gi, gj)) == H(P.pre, ix(gi, gj)))))
        P.ensures("land mask is kept if asked for", Implies(a["dont_change_landmask"] != 0, (K(post, ix(gi, gj)) >= 0) == (K(P.pre, ix(gi, gj)) >= 0)))
        return P
    return b


class _At:
    """a loop context with one local replaced"""
    def __init__(s, L, **kw):
        s.L, s.kw = L, kw

    def __getitem__(s, k):
        return s.kw[k] if k in s.kw else s.L[k]

    def at(s, *x):
        return s.L.at(*x)


def p_restrict():
    P = Proof(TP, "restrict_partial_cells", contracts={}, timeout=60)
    a = P.a
    ni, nj, nk = a["ni"], a["nj"], a["nk"]
    P.requires(ni >= 1, nj >= 1)
    full, flat = z3.Bool("g_full"), z3.Bool("g_flat")
    V = Levels(P, a["zw"], nk, full, flat)
    N = ni * nj
    for k, ty in (("ht", F64), ("kmt", I32)):
        P.elem(a[k], ty)
        P.length(a[k], N)
    H = lambda L, q: L.at(a["ht"], simp(q), F64)
    K = lambda L, q: L.at(a["kmt"], simp(q), I32)
    f, mt = a["fraction_full_cell"], a["min_thickness"]
    pmin = lambda k: smallest(V, f, mt, k)
    q = z3.Int("q")
    P.requires(forall([q], Implies(And(0 < q, q < nk), pmin(q) <= V.Z(q) - V.Z(q - 1)), [V.Z(q)]))
    gi, gj = P.ghost("i"), P.ghost("j")
    P.requires(0 <= gi, gi < ni, 0 <= gj, gj < nj)
    g = simp(gj * ni + gi)
    h0, k0 = H(P.pre, g), K(P.pre, g)
    G = Grid(P)
    P.requires(V.ok(h0, k0))
    qs = z3.Int("qs")
    P.requires(forall([qs], Implies(And(0 <= qs, qs < N), And(K(P.pre, qs) >= -1, K(P.pre, qs) < nk)), [K(P.pre, qs)]))
    open_ = a["open_very_this_cell"] != 0

    def done(L):
        h, k = H(L, g), K(L, g)
        thin = And(k0 > 0, h0 - V.Z(k0 - 1) < pmin(k0))
        drop = And(Not(open_), V.Z(k0 - 1) + pmin(k0) - h0 > h0 - V.Z(k0 - 1))
        return [("kept", Implies(Not(thin), And(h == h0, k == k0))), ("opened", Implies(And(thin, Not(drop)), And(k == k0, h == V.Z(k0 - 1) + pmin(k0)))),
                ("dropped", Implies(And(thin, drop), And(k == k0 - 1, h == V.Z(k0 - 1))))]
    pc = lambda L, hi: ("smallest thickness", forall([q], Implies(And(0 <= q, q < hi), L.at(L["p_cell_min"], q, F64) == If(q == 0, If(f == 0, pmin(q), f * V.Z(iv(0))), pmin(q))), [L.at(L["p_cell_min"], q, F64)]))

    def fill(L):
        return [("k", And(0 <= L["k"], L["k"] <= nk)), pc(L, L["k"])]

    def cells(L):
        i, j = L["i"], L["j"]
        if not P.eng.dry:
            G.flat(i, j, ni, nj)
            G.uniq(i, j, gi, gj, ni)
            G.flat(gi, gj, ni, nj)
        o = [("j", And(0 <= j, j <= nj)), ("i", And(0 <= i, i <= ni)), pc(L, nk), ("k range", forall([qs], Implies(And(0 <= qs, qs < N), And(K(L, qs) >= -1, K(L, qs) < nk)), [K(L, qs)]))]
        o += [(n, Implies(passed(i, j, gi, gj), x)) for n, x in done(L)]
        return o + [("later", Implies(Not(passed(i, j, gi, gj)), And(H(L, g) == h0, K(L, g) == k0)))]
    lo = {n: f for n, f in zip(ORDER["restrict"], (fill, fill, lambda L: [("k", L["k"] >= 0), pc(L, nk)], lambda L: cells(_At(L, i=iv(0))), cells, lambda L: cells(_At(L, i=iv(0))), cells))}
    for n, fn in lo.items():
        P.loop(n, inv=fn)
    P.run()
    for n, x in done(P.post):
        P.ensures("cell is " + n, x)
    h, k = H(P.post, g), K(P.post, g)
    P.ensures("cell agrees with its level", V.ok(h, k))
    P.ensures("bottom cell is not too thin", Implies(k > 0, h - V.Z(k - 1) >= pmin(k)))
    P.ensures("land is unchanged", Implies(k0 == -1, And(h == h0, k == -1)))
    return P


def smallest(V, f, mt, k):
    return If(f == 0, min2(real(50.0), V.Z(iv(0))), max2(f * (V.Z(k) - V.Z(k - 1)), mt))


ORDER = {"restrict": [1, 0, 2, 5, 6, 3, 4]}


def shallow(V, a, kmt_min, h0, k0):
    """what enforce_min_depth makes of a cell"""
    low = And(h0 > 0, k0 < kmt_min - 1)
    rnd = Or(a["round_shallow"] != 0, And(a["deepen_shallow"] == 0, a["fill_shallow"] == 0))
    land = And(low, Or(And(rnd, V.Z(k0) < real(0.5) * V.Z(kmt_min - 1)), And(Not(rnd), a["fill_shallow"] != 0)))
    return low, land


def p_shallow():
    P = Proof(TP, "enforce_min_depth", contracts={"mpp_error": die, "sprintf": lambda c: iv(0)}, timeout=60)
    a = P.a
    nx, ny, nk, km = a["nx"], a["ny"], a["nk"], a["kmt_min"]
    P.requires(nx >= 1, ny >= 1)
    V = Levels(P, a["zw"], nk, z3.Bool("g_full"), z3.Bool("g_flat"))
    N = nx * ny
    for k, ty in (("depth", F64), ("kmt", I32)):
        P.elem(a[k], ty)
        P.length(a[k], N)
    H = lambda L, q: L.at(a["depth"], simp(q), F64)
    K = lambda L, q: L.at(a["kmt"], simp(q), I32)
    gi, gj = P.ghost("i"), P.ghost("j")
    P.requires(0 <= gi, gi < nx, 0 <= gj, gj < ny)
    g = simp(gj * nx + gi)
    h0, k0 = H(P.pre, g), K(P.pre, g)
    G = Grid(P)
    qs = z3.Int("qs")
    al = lambda L: forall([qs], Implies(And(0 <= qs, qs < N), And(Implies(H(L, qs) > 0, K(L, qs) >= 0), K(L, qs) < nk)), [K(L, qs)])
    P.requires(V.ok(h0, k0), al(P.pre))

    def done(L):
        h, k = H(L, g), K(L, g)
        low, land = shallow(V, a, km, h0, k0)
        return [("kept", Implies(Not(low), And(h == h0, k == k0))), ("land", Implies(land, And(h == 0, k == -1))), ("deepened", Implies(And(low, Not(land)), And(h == V.Z(km - 1), k == km - 1)))]

    def cells(L):
        i, j = L["i"], L["j"]
        if not P.eng.dry:
            G.flat(i, j, nx, ny)
            G.uniq(i, j, gi, gj, nx)
            G.flat(gi, gj, nx, ny)
        o = [("j", And(0 <= j, j <= ny)), ("i", And(0 <= i, i <= nx)), ("cells", al(L)), ("min", L["kmt_min_local"] == km - 1)]
        o += [(n, Implies(passed(i, j, gi, gj), x)) for n, x in done(L)]
        return o + [("later", Implies(Not(passed(i, j, gi, gj)), And(H(L, g) == h0, K(L, g) == k0)))]
    P.loop(0, inv=lambda L: cells(_At(L, i=iv(0))))
    P.loop(1, inv=cells)
    P.run()
    for n, x in done(P.post):
        P.ensures("cell is " + n, x)
    h, k = H(P.post, g), K(P.post, g)
    P.ensures("at most one way to treat shallow cells", Not(Or(*[And(a[x] != 0, a[y] != 0) for x, y in (("round_shallow", "fill_shallow"), ("round_shallow", "deepen_shallow"), ("fill_shallow", "deepen_shallow"))])))
    P.ensures("cell agrees with its level", V.ok(h, k))
    P.ensures("ocean has the smallest number of levels", Implies(h > 0, k >= km - 1))
    P.ensures("land is unchanged", Implies(h0 <= 0, And(h == h0, k == k0)))
    return P


class Quant:
    """depth and bottom level that process_topo gives to a cell of depth D before adjusting it"""
    def __init__(s, V, mt):
        s.V, s.mt = V, mt

    def level(s, D, k):
        Z = s.V.Z
        return And(0 <= k, k < s.V.nk, Or(And(D <= Z(k), Or(k == 0, Z(k - 1) < D)), And(Z(k) < D, Or(D - Z(k) < s.mt, k == s.V.nk - 1))))

    def holds(s, D, h, k, full=False, flat=False):
        Z = s.V.Z
        b = z3.BoolVal
        full = full if z3.is_expr(full) else b(full)
        flat = flat if z3.is_expr(flat) else b(flat)
        return And(Implies(D <= 0, And(h == D, k == -1)),
                   Implies(D > 0, And(Implies(flat, And(k == s.V.nk - 1, h == Z(k))), Implies(Not(flat), And(s.level(D, k), h == If(full, Z(k), If(D <= Z(k), D, Z(k))))))))


def c_domain(st, names):
    def f(c):
        for p, n in zip(c.args[1:], names):
            c.set(p, I32, st[n])
    return f


SM = z3.Function("smallest_thickness", Z, R)


def p_process():
    from .c06 import c_nearest

    def allfield(c):
        dom, nx, ny, loc, glo = c.args
        c.require("the whole local field", And(nx == W, ny == Hh, same(loc, a["depth"])))
        c.bulk(glo, F64, lambda *ix: And(ix[-1] >= 0, ix[-1] < ni * nj), lambda *ix: D(ix[-1]))

    def isolated(c):
        n1, n2, ht, kmt, tri, fill, dont, dbg = c.args
        c.require("arguments", And(n1 == ni, n2 == nj, tri == a["tripolar_grid"], fill == a["fill_isolated_cells"], dont == a["dont_change_landmask"]))
        h, k = c.at(ht, ix(*C[0]), F64), c.at(kmt, ix(*C[0]), I32)
        hs, ks = c.at(ht, ix(*C[2]), F64), c.at(kmt, ix(*C[2]), I32)
        c.require("cell agrees with its level", V.ok(h, k))
        c.require("halo of the boundary condition", And(Implies(inter(C[2]), And(h == hs, k == ks)), Implies(Not(inter(C[2])), And(h == 0, k == -1))))
        for p, ty, nm in ((ht, F64, "ht"), (kmt, I32, "kmt")):
            b = c.eng.mkbase(freshname("swept_" + nm), 1, ty)
            c.bulk(p, ty, lambda *ix: And(ix[-1] >= 0, ix[-1] < N), lambda *ix, b=b: b.read((ix[-1],)))
        h2, k2 = c.at(ht, ix(*C[0]), F64), c.at(kmt, ix(*C[0]), I32)
        c.assume_all(And(V.ok(h2, k2), h2 <= h, k2 <= k, Implies(k == -1, h2 == h), Implies(Or(dont != 0, fill == 0), (k2 >= 0) == (k >= 0)), Implies(fill == 0, And(h2 == h, k2 == k))))
        st["iso"] = True

    def locals_(c, ht, kmt):
        c.require("the local fields", And(same(ht, a["depth"]), same(kmt, a["num_levels"])))
        h, k = c.at(ht, g, F64), c.at(kmt, g, I32)
        c.require("cell agrees with its level", Implies(mine, V.ok(h, k)))
        for p, ty, nm in ((ht, F64, "d"), (kmt, I32, "l")):
            b = c.eng.mkbase(freshname("local_" + nm), 1, ty)
            c.bulk(p, ty, lambda *ix: And(ix[-1] >= 0, ix[-1] < W * Hh), lambda *ix, b=b: b.read((ix[-1],)))
        return h, k, c.at(ht, g, F64), c.at(kmt, g, I32)

    def restrict(c):
        n1, n2, n3, z, ht, kmt, mt, op, fr, dbg = c.args
        c.require("arguments", And(n1 == W, n2 == Hh, n3 == nk, same(z, a["zw"]), mt == a["min_thickness"], op == a["open_very_this_cell"], fr == a["fraction_full_cell"]))
        h, k, h2, k2 = locals_(c, ht, kmt)
        c.assume_all(Implies(mine, And(V.ok(h2, k2), Implies(h <= 0, And(h2 == h, k2 == k)), Implies(h > 0, h2 > 0), k2 <= k, k2 >= k - 1, Implies(k2 > 0, h2 - V.Z(k2 - 1) >= SM(k2)))))

    def shall(c):
        n1, n2, n3, z, rs, ds, fs, ht, kmt, km, dbg = c.args
        c.require("arguments", And(n1 == W, n2 == Hh, n3 == nk, same(z, a["zw"]), km == a["kmt_min"], rs == a["round_shallow"], ds == a["deepen_shallow"], fs == a["fill_shallow"]))
        h, k, h2, k2 = locals_(c, ht, kmt)
        low, land = shallow(V, a, km, h, k)
        c.assume_all(Implies(mine, And(V.ok(h2, k2), Implies(Not(low), And(h2 == h, k2 == k)), Implies(land, And(h2 == 0, k2 == -1)), Implies(And(low, Not(land)), And(h2 == V.Z(km - 1), k2 == km - 1)),
                         Implies(low, And(km >= 1, km <= nk)))))
    st = {k: z3.Int("dom_" + k) for k in ("isc", "iec", "jsc", "jec", "nxg", "nyg")}
    ni, nj = st["nxg"], st["nyg"]
    P = Proof(TP, "process_topo", contracts={"mpp_get_compute_domain2d": c_domain(st, ["isc", "iec", "jsc", "jec"]), "mpp_get_global_domain2d": c_domain(st, ["nxg", "nyg"]),
                                             "mpp_global_field_all_double": allfield, "nearest_index": c_nearest, "remove_isolated_cells": isolated, "restrict_partial_cells": restrict,
                                             "enforce_min_depth": shall}, timeout=60)
    a = P.a
    nk = a["nk"]
    W, Hh = st["iec"] - st["isc"] + 1, st["jec"] - st["jsc"] + 1
    P.requires(ni >= 1, nj >= 1, 0 <= st["isc"], st["isc"] <= st["iec"], st["iec"] < ni, 0 <= st["jsc"], st["jsc"] <= st["jec"], st["jec"] < nj)
    full, flat = a["full_cell"] != 0, a["flat_bottom"] != 0
    V = Levels(P, a["zw"], nk, full, flat)
    P.elem(a["depth"], F64)
    P.elem(a["num_levels"], I32)
    P.length(a["depth"], W * Hh)
    P.length(a["num_levels"], W * Hh)
    q = z3.Int("q")
    mt = a["min_thickness"]
    # SM abbreviates smallest(V, fraction_full_cell, min_thickness, .), which restrict_partial_cells is required to be called with
    P.requires(forall([q], Implies(And(0 < q, q < nk), SM(q) <= V.Z(q) - V.Z(q - 1)), [SM(q)]))
    D = z3.Function("global_depth", Z, R)
    nip = ni + 2
    N = nip * (nj + 2)
    ix = lambda x, y: simp(y * nip + x)
    Q = Quant(V, mt)
    cx, cy = P.ghost("ci"), P.ghost("cj")
    P.requires(0 <= cx, cx <= ni + 1, 0 <= cy, cy <= nj + 1)
    tri, cycx, cycy = a["tripolar_grid"] != 0, a["cyclic_x"] != 0, a["cyclic_y"] != 0
    x1 = z3.Int("g_wrapped")
    x2, y2 = z3.Ints("g_source_i g_source_j")
    P.requires(x1 == If(And(cycx, cx == 0), ni, If(And(cycx, cx == ni + 1), iv(1), cx)))
    fold = And(1 <= x1, x1 <= ni)
    P.requires(x2 == If(And(tri, cy == nj + 1, fold), ni - x1 + 1, x1))
    P.requires(y2 == If(And(tri, cy == nj + 1, fold), nj, If(And(Not(tri), cycy, fold), If(cy == 0, nj, If(cy == nj + 1, iv(1), cy)), cy)))
    C = [(cx, cy), (x1, cy), (x2, y2)]
    inter = lambda c: And(1 <= c[0], c[0] <= ni, 1 <= c[1], c[1] <= nj)
    # the local ghost cell is the cell of the padded grid when that is a cell of the local domain
    gi, gj = simp(cx - 1 - st["isc"]), simp(cy - 1 - st["jsc"])
    mine = And(0 <= gi, gi < W, 0 <= gj, gj < Hh)
    g = simp(gj * W + gi)
    d0 = P.pre.at(a["depth"], g, F64)
    P.requires(Implies(mine, D(simp((cy - 1) * ni + cx - 1)) == d0))
    Dc = lambda c: D(simp((c[1] - 1) * ni + c[0] - 1))
    G = Grid(P)
    HT = lambda L, c: L.at(L["ht"], ix(*c), F64)
    KM = lambda L, c: L.at(L["kmt"], ix(*c), I32)
    frame = lambda L: [("sizes", And(L["nip"] == nip, L["ni"] == ni, L["nj"] == nj, L["nxc"] == W, L["nyc"] == Hh))] + [(k, L[k] == st[k]) for k in ("isc", "iec", "jsc", "jec")]

    def near(L, i, j, only=None):
        if P.eng.dry:
            return
        G.flat(i, j, nip, nj + 2)
        for c in C:
            G.flat(c[0], c[1], nip, nj + 2)
            G.uniq(i, j, c[0], c[1], nip)
            G.cong(i, j, c[0], c[1], nip)
            G.flat(simp(c[0] - 1), simp(c[1] - 1), ni, nj)
            G.cong(simp(i - 1), simp(j - 1), simp(c[0] - 1), simp(c[1] - 1), ni)
        G.flat(simp(i - 1), simp(j - 1), ni, nj)
        for u, v in ((0, 1), (1, 2), (0, 2)):
            G.cong(*C[u], *C[v], nip)
            G.uniq(*C[u], *C[v], nip)

    # inverse of the flattened index: CI(q), CJ(q) stand for q % nip and q / nip, FI for the flattened index
    CI, CJ, FI = z3.Function("column_of", Z, Z), z3.Function("row_of", Z, Z), z3.Function("index_of", Z, Z, Z)
    P.requires(forall([q], FI(CI(q), CJ(q)) == q, [CI(q)]))

    def place(i, j):
        if not P.eng.dry:
            k = ix(i, j)
            P.eng.facts.append(FI(i, j) == k)
            P.eng.facts.append(Implies(And(0 <= i, i < nip), And(CI(k) == i, CJ(k) == j)))

    def everywhere(L, i, j, stage):
        H, K = L.at(L["ht"], q, F64), L.at(L["kmt"], q, I32)
        place(i, j)
        ins = And(1 <= CI(q), CI(q) <= ni, 1 <= CJ(q), CJ(q) <= nj)
        rng = And(K < nk, Implies(And(H > 0, passed(i, j, CI(q), CJ(q)) if stage == 1 else True), K >= 0)) if stage else K == -1
        return [("range", forall([q], Implies(And(0 <= q, q < N), And(rng, Implies(Not(ins), H == 0))), [H, K]))] if stage < 3 else []

    def init(L):
        i = L["i"]
        near(L, iv(0), iv(0))
        H, K = L.at(L["ht"], q, F64), L.at(L["kmt"], q, I32)
        return frame(L) + [("i", And(0 <= i, i <= N)), ("all zero", forall([q], Implies(And(0 <= q, q < i), And(H == 0, K == -1)), [H, K]))] + [("zero %d" % n, Implies(ix(*c) < i, And(HT(L, c) == 0, KM(L, c) == -1))) for n, c in enumerate(C)]

    def two(stage, inner):
        def f(L):
            L2 = L if inner else _At(L, i=iv(1))
            i, j = L2["i"], L2["j"]
            near(L2, i, j)
            o = frame(L2) + [("j", And(1 <= j, j <= nj + 1)), ("i", And(1 <= i, i <= ni + 1))] + everywhere(L2, i, j, stage)
            for n, c in enumerate(C):
                p = passed(i, j, *c)
                h, k, d = HT(L2, c), KM(L2, c), Dc(c)
                o.append(("halo %d" % n, Implies(Not(inter(c)), And(h == 0, k == -1))))
                if stage == 0:
                    o += [("level %d" % n, k == -1), ("copied %d" % n, Implies(And(inter(c), p), h == d)), ("later %d" % n, Implies(Not(p), h == 0))]
                elif stage == 1:
                    o += [("later %d" % n, Implies(And(inter(c), Not(p)), And(h == d, k == -1))), ("done %d" % n, Implies(And(inter(c), p), Q.holds(d, h, k)))]
                elif stage == 2:
                    o += [("done %d" % n, Implies(inter(c), Q.holds(d, h, k, full=And(full, p))))]
                else:
                    o += [("done %d" % n, Implies(inter(c), Q.holds(d, h, k, full=full, flat=And(flat, p))))]
            return o
        return f
    tmpf = lambda L: [("global depth", And(*[Implies(inter(c), L.at(L["tmp"], simp((c[1] - 1) * ni + c[0] - 1), F64) == Dc(c)) for c in C]))]
    P.loop(0, inv=init)
    P.loop(1, inv=lambda L: two(0, False)(L) + tmpf(L))
    P.loop(2, inv=lambda L: two(0, True)(L) + tmpf(L))
    for n in (1, 2, 3):
        P.loop(2 * n + 1, inv=two(n, False))
        P.loop(2 * n + 2, inv=two(n, True))

    def halo(kind):
        def f(L):
            near(L, iv(0), iv(0))
            o = frame(L)
            v = L["j"] if kind == "x" else L["i"]
            o.append(("range", And(0 <= v, v <= nj + 2) if kind == "x" else And(1 <= v, v <= ni + 1)))
            same_ = lambda c, d: And(HT(L, c) == HT(L, d), KM(L, c) == KM(L, d))
            zero = lambda c: And(HT(L, c) == 0, KM(L, c) == -1)
            if not P.eng.dry:
                for x, y in (((v, nj + 1), (ni - v + 1, nj)),) if kind == "tri" else (((v, iv(0)), (v, nj)), ((v, nj + 1), (v, iv(1)))) if kind == "y" else (((iv(0), v), (ni, v)), ((ni + 1, v), (iv(1), v))):
                    for d in (x, y):
                        d = (simp(d[0]), simp(d[1]))
                        G.flat(*d, nip, nj + 2)
                        for c in C:
                            G.uniq(*d, *c, nip)
                            G.cong(*d, *c, nip)
            for n, c in enumerate(C):
                o.append(("inner %d" % n, Implies(inter(c), Q.holds(Dc(c), HT(L, c), KM(L, c), full=full, flat=flat))))
            # row halo (c1 takes the value of c2)
            rowhalo = Or(And(tri, cy == nj + 1), And(Not(tri), cycy, Or(cy == 0, cy == nj + 1)))
            c1, c2, c0 = C[1], C[2], C[0]
            if kind == "x":
                o.append(("rows", Implies(And(inter(c2)), same_(c1, c2))))
                o.append(("no rows", Implies(Not(inter(c2)), And(zero(c1), zero(c2)))))
                o.append(("columns", Implies(Or(v > cy, And(1 <= cx, cx <= ni)), same_(c0, c1))))
                o.append(("later", Implies(And(Or(cx == 0, cx == ni + 1), v <= cy), zero(c0))))
            else:
                o.append(("rows", Implies(And(inter(c2), Or(v > x1, Not(rowhalo))), same_(c1, c2))))
                o.append(("later", Implies(And(rowhalo, v <= x1), zero(c1))))
                o.append(("no rows", Implies(Not(inter(c2)), And(zero(c1), zero(c2)))))
                o.append(("columns", Implies(Or(cx == 0, cx == ni + 1), zero(c0))))
                o.append(("own column", Implies(And(1 <= cx, cx <= ni), same_(c0, c1))))
            return o
        return f
    P.loop(9, inv=halo("y"))
    P.loop(10, inv=halo("tri"))
    P.loop(11, inv=halo("x"))
    return P, locals()


def p_process_all():
    P, v = p_process()
    a, st, V, Q, G, C, W, Hh, g, gi, gj, d0, ix, nip, full, flat, nk, frame, near, HT, KM, inter, mine = [v[k] for k in "a st V Q G C W Hh g gi gj d0 ix nip full flat nk frame near HT KM inter mine".split()]
    ni, nj = v["ni"], v["nj"]
    adj = a["adjust_topo"] != 0
    dep = lambda L: L.at(a["depth"], g, F64)
    lev = lambda L: L.at(a["num_levels"], g, I32)

    def src(L):
        h, k = HT(L, C[0]), KM(L, C[0])
        keep = Or(Not(adj), a["fill_isolated_cells"] == 0)
        return [("agrees", V.ok(h, k)), ("not adjusted", Implies(keep, Q.holds(d0, h, k, full=full, flat=flat))), ("land stays", Implies(d0 <= 0, h == d0)),
                ("mask", Implies(Or(keep, a["dont_change_landmask"] != 0), (h > 0) == (d0 > 0)))]

    src_ = lambda L: [(n, Implies(mine, x)) for n, x in src(L)]

    def copy(L):
        i, j = L["i"], L["j"]
        if not P.eng.dry:
            G.flat(simp(i - st["isc"]), simp(j - st["jsc"]), W, Hh)
            G.uniq(simp(i - st["isc"]), simp(j - st["jsc"]), gi, gj, W)
            G.cong(simp(i - st["isc"]), simp(j - st["jsc"]), gi, gj, W)
            G.flat(gi, gj, W, Hh)
            G.flat(simp(i + 1), simp(j + 1), nip, nj + 2)
            G.cong(simp(i + 1), simp(j + 1), *C[0], nip)
        o = frame(L) + [("j", And(st["jsc"] <= j, j <= st["jec"] + 1)), ("i", And(st["isc"] <= i, i <= st["iec"] + 1))] + src_(L)
        return o + [("copied", Implies(And(mine, passed(i, j, C[0][0] - 1, C[0][1] - 1)), And(dep(L) == HT(L, C[0]), lev(L) == KM(L, C[0]))))]
    P.loop(12, inv=lambda L: copy(_At(L, i=st["isc"])))
    P.loop(13, inv=copy)

    def final(h, k):
        """depth and bottom level of the cell at the end"""
        o = [("cell agrees with its level", V.ok(h, k)), ("not adjusted", Implies(Not(adj), Q.holds(d0, h, k, full=full, flat=flat))), ("land stays land", Implies(d0 <= 0, And(h == d0, k == -1))),
             ("ocean is deep enough", Implies(And(adj, h > 0), k >= a["kmt_min"] - 1)),
             ("bottom cell is thick enough", Implies(And(adj, k > 0), h - V.Z(k - 1) >= SM(k))),
             ("flat bottom", Implies(And(flat, h > 0), And(k == nk - 1, h == V.Z(k)))), ("full cells", Implies(And(full, h > 0), h == V.Z(k))),
             ("land mask is kept", Implies(And(adj, Or(a["dont_change_landmask"] != 0, a["fill_isolated_cells"] == 0), Or(a["kmt_min"] <= 1, a["deepen_shallow"] != 0), a["fill_shallow"] == 0, a["round_shallow"] == 0), (h > 0) == (d0 > 0)))]
        return [(n, Implies(mine, x)) for n, x in o]

    def last(L):
        i = L["i"]
        if not P.eng.dry:
            G.flat(gi, gj, W, Hh)
        k = lev(L) - If(i > g, iv(1), iv(0))
        return frame(L) + [("i", And(0 <= i, i <= W * Hh))] + final(dep(L), k)
    P.loop(14, inv=last)
    P.run()
    for n, x in final(dep(P.post), lev(P.post) - 1):
        P.ensures(n, x)
    return P


def p_filter():
    st = {k: z3.Int("dom_" + k) for k in ("isc", "iec", "jsc", "jec", "nxg", "nyg")}
    ni, nj = st["nxg"], st["nyg"]
    D = z3.Function("global_depth", Z, R)

    def allfield(c):
        dom, nx, ny, loc, glo = c.args
        c.require("the whole local field", And(nx == W, ny == Hh, same(loc, a["depth"])))
        c.bulk(glo, F64, lambda *ix: And(ix[-1] >= 0, ix[-1] < ni * nj), lambda *ix: D(ix[-1]))
    P = Proof(TP, "filter_topo", contracts={"mpp_get_compute_domain2d": c_domain(st, ["isc", "iec", "jsc", "jec"]), "mpp_get_global_domain2d": c_domain(st, ["nxg", "nyg"]),
                                            "mpp_global_field_all_double": allfield, "mpp_error": die}, timeout=60)
    a = P.a
    W, Hh = st["iec"] - st["isc"] + 1, st["jec"] - st["jsc"] + 1
    P.requires(ni >= 1, nj >= 1, 0 <= st["isc"], st["isc"] <= st["iec"], st["iec"] < ni, 0 <= st["jsc"], st["jsc"] <= st["jec"], st["jec"] < nj, a["nx"] == W, a["ny"] == Hh)
    P.elem(a["depth"], F64)
    P.length(a["depth"], W * Hh)
    N = ni * nj
    q = z3.Int("q")
    P.requires(forall([q], Implies(And(0 <= q, q < N), D(q) >= 0), [D(q)]))
    ci, cj = P.ghost("i"), P.ghost("j")
    P.requires(0 <= ci, ci < ni, 0 <= cj, cj < nj)
    gi, gj = simp(ci - st["isc"]), simp(cj - st["jsc"])
    mine = And(0 <= gi, gi < W, 0 <= gj, gj < Hh)
    g = simp(gj * W + gi)
    ix = lambda i, j, u=0, v=0: simp((j + v) * ni + i + u)
    c = ix(ci, cj)
    d0 = P.pre.at(a["depth"], g, F64)
    P.requires(Implies(mine, D(c) == d0))
    G = Grid(P)
    deepen = a["smooth_topo_allow_deepening"] != 0
    inner = And(1 <= ci, ci < ni - 1, 1 <= cj, cj < nj - 1)
    nine = [(u, v) for u in (-1, 0, 1) for v in (-1, 0, 1)]
    wt = lambda u, v: z3.RealVal({2: "1/16", 1: "1/8", 0: "1/4"}[abs(u) + abs(v)])

    def smoothed(f):
        own = f(c)
        t = sum([wt(u, v) * If(D(ix(ci, cj, u, v)) == 0, own, f(ix(ci, cj, u, v))) for u, v in nine], z3.RealVal(0))
        t = If(And(Not(deepen), t > own), own, t)
        return If(D(c) == 0, z3.RealVal(0), t)
    arr = lambda L, n: (lambda k: L.at(L[n], k, F64))

    def frame(L):
        o = [("sizes", And(L["nxg"] == ni, L["nyg"] == nj))] + [(n, L[n] == st[n + "c"]) for n in ("is", "ie", "js", "je")]
        return o

    def mask(L, hi=None):
        m = arr(L, "rmask")
        return [("mask", forall([q], Implies(And(0 <= q, q < (N if hi is None else hi)), m(q) == If(D(q) == 0, z3.RealVal(0), z3.RealVal(1))), [m(q)]))]

    def first(L):
        dg, sv = arr(L, "depth_global"), arr(L, "s")
        i = L["i"]
        return frame(L) + mask(L, i) + [("i", And(0 <= i, i <= N)), ("copy", forall([q], Implies(And(0 <= q, q < i), sv(q) == D(q)), [sv(q)])), ("data", forall([q], Implies(And(0 <= q, q < N), dg(q) == D(q)), [dg(q)]))]
    sane = lambda v, q: And(v >= 0, (v == 0) == (D(q) == 0))
    good = lambda f, n: ("sane " + n, forall([q], Implies(And(0 <= q, q < N), And(sane(f(q), q), Implies(Not(deepen), f(q) <= D(q)))), [f(q)]))

    def passes(L, cont=True):
        dg, sv, n = arr(L, "depth_global"), arr(L, "s"), L["n"]
        o = frame(L) + mask(L) + [("n", n >= 1), good(dg, "depth"), ("not yet", Implies(n == 1, forall([q], Implies(And(0 <= q, q < N), dg(q) == D(q)), [dg(q)]))),
                                  ("one pass", Implies(And(n == 2, inner), dg(c) == smoothed(D))), ("edge", Implies(Not(inner), dg(c) == D(c)))]
        if cont:
            o.append(("s", forall([q], Implies(And(0 <= q, q < N), sv(q) == dg(q)), [sv(q)])))
        return o

    def cells(L):
        i, j = L["i"], L["j"]
        if not P.eng.dry:
            for u, v in nine:
                G.flat(simp(i + u), simp(j + v), ni, nj)
                G.flat(simp(ci + u), simp(cj + v), ni, nj)
                G.cong(simp(i + u), simp(j + v), simp(ci + u), simp(cj + v), ni)
            G.uniq(i, j, ci, cj, ni)
        dg, sv = arr(L, "depth_global"), arr(L, "s")
        p = And(inner, passed(i, j, ci, cj))
        return passes(L, False) + [("num", L["n"] <= a["num_pass"]), ("j", And(1 <= j, Or(j <= nj - 1, j == 1))), ("i", And(1 <= i, Or(i <= ni - 1, i == 1))), good(sv, "smoothed"),
                                   ("smoothed", Implies(p, sv(c) == smoothed(dg))), ("later", Implies(Not(p), sv(c) == dg(c)))]

    def back(L):
        dg, sv, i = arr(L, "depth_global"), arr(L, "s"), L["i"]
        if not P.eng.dry:
            G.flat(ci, cj, ni, nj)
        n = L["n"]
        return frame(L) + mask(L) + [("n", And(n >= 1, n <= a["num_pass"])), ("i", And(0 <= i, i <= N)), good(sv, "smoothed"), good(dg, "depth"), ("copied", forall([q], Implies(And(0 <= q, q < i), dg(q) == sv(q)), [dg(q)])),
                                     ("one pass", Implies(And(n == 1, inner), sv(c) == smoothed(D))), ("edge", Implies(Not(inner), sv(c) == D(c)))]

    def out(L):
        i, j = L["i"], L["j"]
        if not P.eng.dry:
            G.flat(simp(i - st["isc"]), simp(j - st["jsc"]), W, Hh)
            G.uniq(simp(i - st["isc"]), simp(j - st["jsc"]), gi, gj, W)
            G.cong(simp(i - st["isc"]), simp(j - st["jsc"]), gi, gj, W)
            G.flat(gi, gj, W, Hh)
            G.flat(i, j, ni, nj)
            G.flat(ci, cj, ni, nj)
            G.cong(i, j, ci, cj, ni)
        dg = arr(L, "depth_global")
        return frame(L) + [("j", And(st["jsc"] <= j, j <= st["jec"] + 1)), ("i", And(st["isc"] <= i, i <= st["iec"] + 1)), ("pos", L["pos"] == (j - st["jsc"]) * W + i - st["isc"])] + \
            [(n, x) for n, x in result(dg(c))] + [("written", Implies(And(mine, passed(i, j, ci, cj)), L.at(a["depth"], g, F64) == dg(c)))]

    def result(v):
        return [("coast line and sign are kept", sane(v, c)), ("nothing is deepened", Implies(Not(deepen), v <= D(c))), ("edge is kept", Implies(Not(inner), v == D(c))),
                ("no pass, no change", Implies(a["num_pass"] <= 0, v == D(c))), ("one pass smooths once", Implies(And(a["num_pass"] == 1, inner), v == smoothed(D)))]
    P.loop(0, inv=first)
    P.loop(1, inv=lambda L: passes(L) + [("num", Or(L["n"] == 1, L["n"] <= a["num_pass"] + 1))])
    P.loop(2, inv=lambda L: cells(_At(L, i=iv(1))))
    P.loop(3, inv=cells)
    P.loop(4, unroll=3)
    P.loop(5, unroll=3)
    P.loop(6, inv=back)
    P.loop(7, inv=lambda L: out(_At(L, i=st["isc"])))
    P.loop(8, inv=out)
    P.run()
    v = P.post.at(a["depth"], g, F64)
    for n, x in result(v):
        P.ensures(n, Implies(mine, x))
    return P


EPS = real(1.0e-5)
NX, NY = z3.Function("nearest_longitude", R, Z), z3.Function("nearest_latitude", R, Z)


class Trapezoid:
    """columns of a row that set_depth covers"""
    def __init__(s, al1, sl1, el1, al2, sl2, el2):
        j1, j2 = NY(al1), NY(al2)
        s.js, s.je = min2(j1, j2), max2(j1, j2)
        o = lambda u, v: (min2(NX(u), NX(v)), max2(NX(u), NX(v)))
        (s.is1, s.ie1), (s.is2, s.ie2) = o(sl1, el1), o(sl2, el2)

    @staticmethod
    def lerp(js, je, j, e1, e2):
        r = If(js == je, z3.RealVal(1), 1 / toR(je - js))
        return r * toR((j - js) * e2 + (je - j) * e1) + EPS

    @staticmethod
    def rnd(d):
        c = -z3.ToInt(-d)
        return If(toR(c) - d > real(0.5), c - 1, c)


def c_near_axis(a, xb, yb, nx, ny):
    def f(c):
        v, arr, n = c.args
        x = isinstance(arr, Ptr) and arr.region is xb.region
        if not x and not (isinstance(arr, Ptr) and arr.region is yb.region):
            raise AttachError("nearest_index of another array")
        F, m = (NX, nx) if x else (NY, ny)
        c.require("all points of the axis", n == m)
        c.assume_all(And(0 <= F(v), F(v) < m))
        return F(v)
    return f


def p_setdepth():
    P = Proof(TP, "set_depth", contracts={}, timeout=60)
    a = P.a
    nx, ny = a["nx"], a["ny"]
    P.eng.contracts.update({"nearest_index": c_near_axis(a, a["xbnd"], a["ybnd"], nx, ny)})
    P.requires(nx >= 1, ny >= 1)
    for k, n in (("xbnd", nx), ("ybnd", ny), ("depth", nx * ny)):
        P.elem(a[k], F64)
        P.length(a[k], n)
    T = Trapezoid(*[a[k] for k in ("alat1", "slon1", "elon1", "alat2", "slon2", "elon2")])
    for v in ("slon1", "slon2", "elon1", "elon2"):
        P.requires(0 <= NX(a[v]), NX(a[v]) < nx)
    for v in ("alat1", "alat2"):
        P.requires(0 <= NY(a[v]), NY(a[v]) < ny)
    gi, gj = P.ghost("i"), P.ghost("j")
    P.requires(0 <= gi, gi < nx, 0 <= gj, gj < ny)
    g = simp(gj * nx + gi)
    G = Grid(P)
    t, w, e1, e2, lo, hi, r, u, v = z3.Reals("lt lw le1 le2 llo lhi lr lu lv")
    conv = P.lemma("weighted mean lies between", [r, u, v, e1, e2, lo, hi],
                   Implies(And(r * (u + v) == 1, r > 0, u >= 0, v >= 0, lo <= e1, lo <= e2, e1 <= hi, e2 <= hi), And(lo <= r * (u * e2 + v * e1), r * (u * e2 + v * e1) <= hi)))
    h0 = P.pre.at(a["depth"], g, F64)
    # opaque names for the edges of the rows, with their definition where it is used
    SA, SB = z3.Function("first_column", Z, Z), z3.Function("last_column", Z, Z)

    def names(L, j):
        if P.eng.dry:
            return
        for F, x, y in ((SA, T.is1, T.is2), (SB, T.ie1, T.ie2)):
            d = T.lerp(T.js, T.je, j, x, y)
            P.eng.facts.append(F(T.js) == x)
            P.eng.facts.append(Implies(j >= T.js, F(simp(j + 1)) == T.rnd(d)))
            rr = 1 / toR(T.je - T.js)
            conv(rr, toR(j - T.js), toR(T.je - j), toR(x), toR(y), min2(toR(x), toR(y)), max2(toR(x), toR(y)))

    def rows(L):
        j = L["j"]
        names(L, j)
        if not P.eng.dry:
            G.flat(gi, gj, nx, ny)
        o = [("limits", And(L["js"] == T.js, L["je"] == T.je, L["is1"] == T.is1, L["ie1"] == T.ie1, L["is2"] == T.is2, L["ie2"] == T.ie2)), ("j", And(T.js <= j, j <= T.je + 1)),
             ("rdj", L["rdj"] == If(T.js == T.je, z3.RealVal(1), 1 / toR(T.je - T.js))), ("edges", And(L["is"] == SA(j), L["ie"] == SB(j))),
             ("inside", Implies(j <= T.je, And(0 <= SA(j), SA(j) < nx, 0 <= SB(j), SB(j) < nx)))]
        hit = And(T.js <= gj, gj < j, SA(gj) <= gi, gi <= SB(gj))
        return o + [("cell", L.at(a["depth"], g, F64) == If(hit, a["depth_in"], h0))]

    def cols(L):
        i, j = L["i"], L["j"]
        if not P.eng.dry:
            G.flat(i, j, nx, ny)
            G.uniq(i, j, gi, gj, nx)
            G.cong(i, j, gi, gj, nx)
        o = [x for x in rows(L) if x[0] != "cell"] + [("row", j <= T.je), ("i", And(L["is"] <= i, Or(i <= L["ie"] + 1, i == L["is"])))]
        hit = And(T.js <= gj, SA(gj) <= gi, gi <= SB(gj), Or(gj < j, And(gj == j, gi < i)))
        return o + [("cell", L.at(a["depth"], g, F64) == If(hit, a["depth_in"], h0))]
    P.loop(0, inv=rows)
    P.loop(1, inv=cols)
    P.run()
    P.ensures("exactly the cells of the trapezoid get the depth", P.post.at(a["depth"], g, F64) == If(And(T.js <= gj, gj <= T.je, SA(gj) <= gi, gi <= SB(gj)), a["depth_in"], h0))
    return P


m_exp, m_cos, m_sin = [z3.Function("m_" + n, R, R) for n in ("exp", "cos", "sin")]


SQ = z3.Function("square", R, R)


def c_square(c):
    x, e = c.args
    e = simp(e)
    if not (z3.is_rational_value(e) and e.as_fraction() == 2):
        raise AttachError("pow with another exponent")
    return SQ(x)


class Cells:
    """an arbitrary cell of an nx by ny grid and its four corners"""
    def __init__(s, P, arrays=(), cells=("depth",)):
        s.P = P
        a = P.a
        s.nx, s.ny = a["nx"], a["ny"]
        P.requires(s.nx >= 1, s.ny >= 1)
        for k in arrays:
            P.elem(a[k], F64)
            P.length(a[k], (s.nx + 1) * (s.ny + 1))
        for k in cells:
            P.elem(a[k], F64)
            P.length(a[k], s.nx * s.ny)
        s.gi, s.gj = P.ghost("i"), P.ghost("j")
        P.requires(0 <= s.gi, s.gi < s.nx, 0 <= s.gj, s.gj < s.ny)
        s.g = simp(s.gj * s.nx + s.gi)
        s.G = Grid(P)

    def at(s, i, j):
        if not s.P.eng.dry:
            s.G.flat(i, j, s.nx, s.ny)
            s.G.flat(s.gi, s.gj, s.nx, s.ny)
            s.G.uniq(i, j, s.gi, s.gj, s.nx)
            s.G.cong(i, j, s.gi, s.gj, s.nx)
            for u in (0, 1):
                for v in (0, 1):
                    s.G.flat(simp(i + u), simp(j + v), s.nx + 1, s.ny + 1)
                    s.G.cong(simp(i + u), simp(j + v), simp(s.gi + u), simp(s.gj + v), s.nx + 1)

    def mean(s, k, i, j):
        p = lambda u, v: s.P.pre.at(s.P.a[k], simp((j + v) * (s.nx + 1) + i + u), F64)
        return (p(0, 0) + p(1, 0) + p(0, 1) + p(1, 1)) * real(0.25)

    def rng(s, i, j):
        return [("j", And(0 <= j, j <= s.ny)), ("i", And(0 <= i, i <= s.nx))]


def p_rect():
    P = Proof(TP, "create_rectangular_topog")
    S = Cells(P)
    a = P.a
    v = lambda L: L.at(a["depth"], S.g, F64)

    def inv(L):
        S.at(S.gi, S.gj)
        return [("i", And(0 <= L["i"], L["i"] <= S.nx * S.ny)), ("filled", Implies(S.g < L["i"], v(L) == a["basin_depth"]))]
    P.loop(0, inv=inv)
    P.run()
    P.ensures("every cell has the depth of the basin", v(P.post) == a["basin_depth"])
    return P


def p_bowl():
    P = Proof(TP, "create_bowl_topog", contracts={"pow": c_square})
    S = Cells(P, ("x", "y"))
    a = P.a
    v = lambda L: L.at(a["depth"], S.g, F64)
    x, y = S.mean("x", S.gi, S.gj), S.mean("y", S.gi, S.gj)
    wall = lambda p, edge, w: 1 - m_exp(-SQ((p - edge) / w))
    out = Or(x <= a["bowl_west"], x >= a["bowl_east"], y <= a["bowl_south"], y >= a["bowl_north"])
    want = If(out, a["min_depth"], a["min_depth"] + a["bottom_depth"] * wall(y, a["bowl_south"], 2) * wall(y, a["bowl_north"], 2) * wall(x, a["bowl_west"], 4) * wall(x, a["bowl_east"], 4))

    def inv(L):
        i, j = L["i"], L["j"]
        S.at(i, j)
        return S.rng(i, j) + [("n", L["nxp"] == S.nx + 1), ("cell", Implies(passed(i, j, S.gi, S.gj), v(L) == want))]
    P.loop(0, inv=lambda L: inv(_At(L, i=iv(0))))
    P.loop(1, inv=inv)
    P.run()
    P.ensures("depth of the bowl at the centre of the cell", v(P.post) == want)
    return P


def p_gauss():
    P = Proof(TP, "create_gaussian_topog", contracts={"pow": c_square}, timeout=60)
    S = Cells(P, ("x", "y"))
    a = P.a
    v = lambda L: L.at(a["depth"], S.g, F64)
    XT, YT = z3.Function("xt", Z, R), z3.Function("yt", Z, R)
    ext = {n: z3.Function("extent_" + n, Z, R) for n in ("xw", "xe", "ys", "yn")}
    src = {"xw": (XT, min2), "xe": (XT, max2), "ys": (YT, min2), "yn": (YT, max2)}
    N = S.nx * S.ny
    for n, F in ext.items():
        P.requires(F(iv(0)) == src[n][0](iv(0)))
    q = z3.Int("q")

    def centre(i, j):
        S.at(i, j)
        if not P.eng.dry:
            k = simp(j * S.nx + i)
            ins = And(0 <= i, i < S.nx, 0 <= j, j < S.ny)
            # XT, YT name the means of the corners of a cell (by flattened index)
            P.eng.facts.append(Implies(ins, And(XT(k) == S.mean("x", i, j), YT(k) == S.mean("y", i, j))))
            for n, F in ext.items():
                P.eng.facts.append(F(simp(k + 1)) == src[n][1](src[n][0](k), F(k)))
    arrs = lambda L, hi: [(n, forall([q], Implies(And(0 <= q, q < hi), L.at(L[n], q, F64) == F(q)), [L.at(L[n], q, F64)])) for n, F in (("xt", XT), ("yt", YT))]

    def means(L):
        i, j = L["i"], L["j"]
        centre(i, j)
        return S.rng(i, j) + [("n", L["nxp"] == S.nx + 1)] + arrs(L, j * S.nx + i)

    def extents(L):
        i, j = L["i"], L["j"]
        centre(i, j)
        centre(iv(0), iv(0))
        k = simp(j * S.nx + i)
        return S.rng(i, j) + arrs(L, N) + [("extent " + n, L[n] == F(k)) for n, F in ext.items()]
    xw, xe, ys, yn = [ext[n](N) for n in ("xw", "xe", "ys", "yn")]
    hh, sc, xc, yc = z3.Reals("g_height g_scale g_xc g_yc")
    height, scale = a["gauss_amp"] * a["bottom_depth"], a["gauss_scale"] * min2(xe - xw, yn - ys)
    P.requires(hh == height, sc == scale, xc == real(0.5) * (xe + xw), yc == real(0.5) * (yn + ys))
    dx, dy = XT(S.g) - xc, YT(S.g) - yc
    bottom = a["bottom_depth"] - hh * m_exp(-(SQ(dx) + SQ(dy)) / SQ(sc)) - a["slope_x"] * (XT(S.g) - xw) - a["slope_y"] * (YT(S.g) - ys)
    want = max2(bottom, a["min_depth"])

    def fill(L):
        S.at(S.gi, S.gj)
        i = L["i"]
        return arrs(L, N) + [("i", And(0 <= i, i <= N)), ("height", L["bump_height"] == hh), ("scale", L["bump_scale"] == sc), ("centre", And(L["xcent"] == xc, L["ycent"] == yc)),
                             ("corner", And(L["xw"] == xw, L["ys"] == ys)), ("cell", Implies(S.g < i, v(L) == want))]
    P.loop(0, inv=lambda L: means(_At(L, i=iv(0))))
    P.loop(1, inv=means)
    P.loop(2, inv=lambda L: extents(_At(L, i=iv(0))))
    P.loop(3, inv=extents)
    P.loop(4, inv=fill)
    centre(S.gi, S.gj)
    P.run()
    P.ensures("depth of the bump at the centre of the cell", v(P.post) == want)
    P.ensures("at least the smallest depth", v(P.post) >= a["min_depth"])
    return P


def p_ideal():
    HIT = z3.Function("in_trapezoid", *[R] * 6, z3.BoolSort())
    b, md = z3.Real("unused"), None

    def setd(c):
        n1, n2, xb, yb, al1, sl1, el1, al2, sl2, el2, d, dep = c.args
        k = fresh("k", Z)
        c.require("the whole grid", And(n1 == S.nx, n2 == S.ny, same(dep, a["depth"])))
        c.require("longitudes of the columns", Implies(And(0 <= k, k < S.nx), c.at(xb, k, F64) == (X(k) + X(k + 1)) * real(0.5)))
        c.require("latitudes of the rows", Implies(And(0 <= k, k < S.ny), c.at(yb, k, F64) == (Y(k) + Y(k + 1)) * real(0.5)))
        old = c.at(dep, S.g, F64)
        nb = c.eng.mkbase(freshname("set"), 1, F64)
        c.bulk(dep, F64, lambda *ix: And(ix[-1] >= 0, ix[-1] < S.nx * S.ny), lambda *ix: nb.read((ix[-1],)))
        c.assume_all(c.at(dep, S.g, F64) == If(HIT(al1, sl1, el1, al2, sl2, el2), d, old))
    P = Proof(TP, "create_idealized_topog", contracts={"set_depth": setd}, timeout=60)
    S = Cells(P, ("x", "y"))
    a = P.a
    X = lambda i: P.pre.at(a["x"], simp(i), F64)
    Y = lambda j: P.pre.at(a["y"], simp(j * (S.nx + 1)), F64)
    bd, md = a["bottom_depth"], a["min_depth"]
    P.requires(bd > 0)
    v = lambda L: L.at(a["depth"], S.g, F64)
    pi = real(math.pi)
    ca = m_cos(toR(S.gj + 1) * pi / toR(S.ny + 1))
    sa = m_sin(toR((S.gi + 1) * 2) * pi / toR(S.nx + 1))
    pr = ca * sa
    wave = max2(bd * (1 - real(0.4) * If(pr >= 0, pr, -pr)), md)
    q = z3.Int("q")

    def flat(L):
        i, j = L["i"], L["j"]
        S.at(i, j)
        return S.rng(i, j) + [("n", And(L["nxp"] == S.nx + 1, L["nyp"] == S.ny + 1)), ("cell", Implies(passed(i, j, S.gi, S.gj), v(L) == bd))]
    ax = lambda L, hi: [("columns", forall([q], Implies(And(0 <= q, q < hi), L.at(L["xbnd"], q, F64) == (X(q) + X(q + 1)) * real(0.5)), [L.at(L["xbnd"], q, F64)]))]

    def rowax(L):
        j = L["j"]
        if not P.eng.dry:
            S.G.flat(iv(0), j, S.nx + 1, S.ny + 1)
            S.G.flat(iv(0), simp(j + 1), S.nx + 1, S.ny + 1)
        return ax(L, S.nx) + [("cell", v(L) == bd), ("n", And(L["nxp"] == S.nx + 1, L["nyp"] == S.ny + 1)), ("j", And(0 <= j, j <= S.ny)),
                              ("rows", forall([q], Implies(And(0 <= q, q < j), L.at(L["ybnd"], q, F64) == (Y(q) + Y(q + 1)) * real(0.5)), [L.at(L["ybnd"], q, F64)]))]

    def colax(L):
        i = L["i"]
        if not P.eng.dry:
            S.G.flat(i, iv(0), S.nx + 1, S.ny + 1)
            S.G.flat(simp(i + 1), iv(0), S.nx + 1, S.ny + 1)
        return ax(L, i) + [("cell", v(L) == bd), ("n", And(L["nxp"] == S.nx + 1, L["nyp"] == S.ny + 1)), ("i", And(0 <= i, i <= S.nx))]

    def waves(L):
        i, j = L["i"], L["j"]
        S.at(i, j)
        p = passed(i, j, S.gi, S.gj)
        return S.rng(i, j) + [("n", And(L["nxp"] == S.nx + 1, L["nyp"] == S.ny + 1)), ("later", Implies(Not(p), Or(v(L) == 0, v(L) == bd))), ("cell", Implies(p, Or(v(L) == 0, v(L) == wave)))] + \
            [x for x in ax(L, S.nx)] + [("rows", forall([q], Implies(And(0 <= q, q < S.ny), L.at(L["ybnd"], q, F64) == (Y(q) + Y(q + 1)) * real(0.5)), [L.at(L["ybnd"], q, F64)]))]
    P.loop(0, inv=lambda L: flat(_At(L, i=iv(0))))
    P.loop(1, inv=flat)
    P.loop(2, inv=colax)
    P.loop(3, inv=rowax)
    P.loop(4, inv=lambda L: waves(_At(L, i=iv(0))))
    P.loop(5, inv=waves)
    P.run()
    h = v(P.post)
    P.ensures("land, undulating bottom or ridge", Or(h == 0, h == wave, h == real(0.666) * bd, h == real(0.5) * bd))
    P.requires(-1 <= ca, ca <= 1, -1 <= sa, sa <= 1)
    P.ensures("within the bottom depth", Implies(And(md <= bd), And(h >= 0, h <= bd)))
    return P


def p_box():
    P = Proof(TP, "create_box_channel_topog")
    S = Cells(P)
    a = P.a
    nx, ny, gi, gj = S.nx, S.ny, S.gi, S.gj
    J = {k: z3.Int("g_" + k) for k in ("jwest_south", "jwest_north", "jeast_south", "jeast_north")}
    for k, x in J.items():
        P.requires(a[k] == toR(x), x >= 1)
    v = lambda L: L.at(a["depth"], S.g, F64)
    ns = Or(gj == 0, gj == ny - 1)
    west = And(gi == 0, Or(gj < J["jwest_south"], gj >= J["jwest_north"]))
    east = And(gi == nx - 1, Or(gj < J["jeast_south"], gj >= J["jeast_north"]))
    val = lambda c: If(c, z3.RealVal(0), a["basin_depth"])

    def stage(n):
        def inv(L):
            i = L["i"] if n < 2 else L["j"]
            if n < 2:
                S.at(S.gi, S.gj)
                if not P.eng.dry:
                    for r in (iv(0), ny - 1):
                        S.G.flat(i, r, nx, ny)
                        S.G.uniq(i, r, gi, gj, nx)
            else:
                col = iv(0) if n < 4 else nx - 1
                S.at(col, i)
            if n == 0:
                return [("i", And(0 <= i, i <= nx * ny)), ("cell", Implies(S.g < i, v(L) == a["basin_depth"]))]
            hit = [And(ns, gi < i)] if n == 1 else [ns]
            if n >= 2:
                hit.append(And(gi == 0, gj < J["jwest_south"], *([gj < i] if n == 2 else [])))
            if n >= 3:
                hit.append(And(gi == 0, gj >= J["jwest_north"], *([gj < i] if n == 3 else [])))
            if n >= 4:
                hit.append(And(gi == nx - 1, gj < J["jeast_south"], *([gj < i] if n == 4 else [])))
            if n >= 5:
                hit.append(And(gi == nx - 1, gj >= J["jeast_north"], gj < i))
            return [("range", And(0 <= i, i <= nx) if n == 1 else And(i >= 0, i <= ny) if n in (2, 4) else i >= 0), ("cell", v(L) == val(Or(*hit)))]
        return inv
    for n in range(6):
        P.loop(n, inv=stage(n))
    P.run()
    P.ensures("walls around the basin except for the channel", v(P.post) == val(Or(ns, west, east)))
    return P


def p_dome():
    P = Proof(TP, "create_dome_topog", timeout=60)
    S = Cells(P, (), ("x", "y", "depth"))
    a = P.a
    nx, ny = S.nx, S.ny
    X = lambda i: P.pre.at(a["x"], simp(i), F64)
    Y = lambda i: P.pre.at(a["y"], simp(i), F64)
    v = lambda L: L.at(a["depth"], S.g, F64)
    N = nx * ny
    w0, e0, s0, d_, bo, em = a["dome_embayment_west"], a["dome_embayment_east"], a["dome_embayment_south"], a["dome_slope"], a["dome_bottom"], a["dome_embayment_depth"]
    # SN(k,v): v moved to the first grid line of the first k intervals that contain it, one after the other
    SX, SY = z3.Function("snapped_x", Z, R, R), z3.Function("snapped_y", Z, R, R)
    YM = z3.Function("northernmost", Z, R)
    P.requires(YM(iv(0)) == Y(iv(0)))
    m = real(111.324e3)
    ys0 = lambda sl: sl - (bo - em) / (d_ * m)
    se = SY(ny - 1, s0)
    ss0 = se - (bo - em) / (d_ * m)
    ss = SY(ny - 1, ss0)
    for F, z in ((SX, w0), (SX, e0), (SY, s0), (SY, ss0)):
        P.requires(F(iv(0), z) == z)

    def step(F, k, z, lo, hi):
        if not P.eng.dry:
            p = F(k, z)
            P.eng.facts.append(F(simp(k + 1), z) == If(And(lo <= p, hi >= p), lo, p))
    rowx = lambda i: X(i)
    coly = lambda j: Y(simp(j * nx))
    yn = YM(N)

    def extent(L):
        i = L["i"]
        if not P.eng.dry:
            P.eng.facts.append(YM(simp(i + 1)) == max2(Y(i), YM(i)))
        return [("i", And(0 <= i, i <= N)), ("north", L["yn"] == YM(i))]

    def xs(L):
        i = L["i"]
        if not P.eng.dry:
            S.G.flat(i, iv(0), nx, ny)
            S.G.flat(simp(i + 1), iv(0), nx, ny)
        for z in (w0, e0):
            step(SX, i, z, rowx(i), rowx(i + 1))
        return [("i", And(0 <= i, i <= nx - 1)), ("west", L["xw_embay"] == SX(i, w0)), ("east", L["xe_embay"] == SX(i, e0)), ("north", L["yn_embay"] == yn), ("south", L["ys_embay"] == s0)]
    fix = lambda L: [("west", L["xw_embay"] == SX(nx - 1, w0)), ("east", L["xe_embay"] == SX(nx - 1, e0)), ("north", L["yn_embay"] == yn)]

    def yrows(L, nm, z):
        j = L["j"]
        if not P.eng.dry:
            S.G.flat(iv(0), j, nx, ny)
            S.G.flat(iv(0), simp(j + 1), nx, ny)
        step(SY, j, z, coly(j), coly(j + 1))
        return fix(L) + [("j", And(0 <= j, j <= ny - 1)), ("south", L[nm] == SY(j, z))]
    rest = lambda L: fix(L) + [("south", L["ys_embay"] == se), ("slope north", L["yn_slope"] == se), ("slope south", L["ys_slope"] == ss)]
    y, x = Y(S.g), X(S.g)
    slope = And(y >= ss, y < se)
    stages = [bo, If(slope, bo - d_ * m * (y - ss), bo), If(y >= se, z3.RealVal(0), If(slope, bo - d_ * m * (y - ss), bo))]
    bay = And(x >= SX(nx - 1, w0), x <= SX(nx - 1, e0), y >= se, y <= yn)
    stages.append(If(bay, em, stages[2]))

    def fill(n):
        def inv(L):
            i = L["i"]
            S.at(S.gi, S.gj)
            o = rest(L) + [("i", And(0 <= i, i <= N)), ("done", Implies(S.g < i, v(L) == stages[n]))]
            if n:
                o.append(("later", Implies(S.g >= i, v(L) == stages[n - 1])))
            return o
        return inv
    P.loop(0, inv=extent)
    P.loop(1, inv=xs)
    P.loop(2, inv=lambda L: yrows(L, "ys_embay", s0))
    P.loop(3, inv=lambda L: yrows(L, "ys_slope", ss0) + [("bay", And(L["ys_embay"] == se, L["yn_slope"] == se))])
    for n in range(4):
        P.loop(4 + n, inv=fill(n))
    P.run()
    P.ensures("bottom, slope, shelf or embayment as the position of the cell says", v(P.post) == stages[3])
    return P


def p_real(vgrid, vtype):
    def b():
        NXS, NYS, NZV = z3.Ints("g_nx_src g_ny_src g_nzv")
        XT, YT, ZE, RAW = z3.Function("xt_src", Z, R), z3.Function("yt_src", Z, R), z3.Function("zeta", Z, R), z3.Function("source_value", Z, R)
        VZ, VF, VX, VY = 100, 101, 102, 103
        D2R = real(math.pi / 180)
        miss = z3.Real("g_missing")
        ymin, ymax = z3.Reals("g_ymin g_ymax")
        ind = {}
        done = {}

        def const(v):
            v = simp(v)
            if not z3.is_int_value(v):
                raise AttachError("variable id is not known")
            return v.as_long()

        def dimname(c):
            f, v, i, buf = c.args
            c.require("dimension of the field", v == VF)
            ind[buf.region.name] = const(i)

        def which(c, p):
            l = c.eng.cstr(p)
            if l is not None:
                return l
            if isinstance(p, Ptr) and p.region is a["topog_field"].region:
                return "field"
            if isinstance(p, Ptr) and p.region.name in ind:
                return ind[p.region.name]
            raise AttachError("unknown name")

        def varid(c):
            w = which(c, c.args[1])
            if w not in ("zeta", "field", 0, 1):
                raise AttachError("unknown variable")
            return iv({"zeta": VZ, "field": VF, 1: VX, 0: VY}[w])

        def dimlen(c):
            w = which(c, c.args[1])
            if w not in ("nzv", 0, 1):
                raise AttachError("unknown dimension")
            return {"nzv": NZV, 1: NXS, 0: NYS}[w]

        def value(c):
            f, v, p = c.args
            F, n = {VZ: (ZE, NZV), VX: (XT, NXS), VY: (YT, NYS)}[const(v)]
            c.bulk(p, F64, lambda *ix: And(ix[-1] >= 0, ix[-1] < n), lambda *ix: F(ix[-1]))

        def att(c):
            f, v, name, p = c.args
            c.require("missing value of the field", And(v == VF, z3.BoolVal(c.eng.cstr(name) == "missing_value")))
            c.set(p, F64, miss)

        def untyped(c):
            c.require("a missing value of any type is read as a double", z3.BoolVal(False))
            att(c)

        def blockread(c):
            f, v, st, nr, p = c.args
            j0, n = c.at(st, iv(0), I64), c.at(nr, iv(0), I64)
            c.require("rows of the field", And(v == VF, j0 >= 0, n >= 1, j0 + n <= NYS, c.at(st, iv(1), I64) == 0, c.at(nr, iv(1), I64) == NXS))
            c.require("further dimensions", And(*[And(c.at(st, iv(k), I64) == 0, c.at(nr, iv(k), I64) == 1) for k in (2, 3)]))
            ty = F64 if vtype != 4 else I32
            conv = (lambda q: RAW(simp(j0 * NXS + q))) if ty is F64 else (lambda q: z3.ToInt(RAW(simp(j0 * NXS + q))))
            c.bulk(p, ty, lambda *ix: And(ix[-1] >= 0, ix[-1] < NXS * n), lambda *ix: conv(ix[-1]))
            done["rows"] = (j0, n)

        def ext(m, lo):
            def f(c):
                n, p = c.args
                k = fresh("k", Z)
                c.require("latitudes of the grid in radians", And(n == NP, Implies(And(0 <= k, k < NP), c.at(p, k, F64) == YD(k) * D2R)))
                return m
            return f

        def mid(T, i, n):
            """corner i of an axis with centres T"""
            h = real(0.5)
            inner = lambda k: (T(simp(k - 1)) + T(k)) * h
            return If(i == 0, 2 * T(iv(0)) - inner(iv(1)), If(i == n, 2 * T(n - 1) - inner(n - 1), inner(i)))

        def rows_ok(c, j0, n):
            c.require("every row that overlaps the grid is used", Implies(And(YC(r) < ymax, YC(r + 1) > ymin, 0 <= r, r < NYS), And(j0 <= r, r < j0 + n)))

        def interp(gc):
            def f(c):
                n1, n2, n3, n4, xs, ys, xd, yd, mk, da, out = c.args
                j0, n = done["rows"]
                c.require("sizes", And(n1 == NXS, n2 == n, n3 == a["nx_dst"], n4 == a["ny_dst"], same(out, a["depth"])))
                c.require("algorithm", (a["use_great_circle_algorithm"] != 0) if gc else (a["use_great_circle_algorithm"] == 0))
                rows_ok(c, j0, n)
                i, j = fresh("i", Z), fresh("j", Z)
                P.eng.dry or (G.flat(ki, kj, NXS + 1, n + 1), G.flat(si, sj, NXS, n))
                k = simp(kj * (NXS + 1) + ki)
                c.require("corner of the source", Implies(And(0 <= ki, ki <= NXS, 0 <= kj, kj <= n), And(c.at(xs, k, F64) == XC(ki), c.at(ys, k, F64) == YC(simp(j0 + kj)))))
                c.require("grid in radians", Implies(And(0 <= dk, dk < NP), And(c.at(xd, dk, F64) == XD(dk) * D2R, c.at(yd, dk, F64) == YD(dk) * D2R)))
                k = simp(sj * NXS + si)
                raw = val(simp((sj + j0) * NXS + si))
                sc = raw * a["scale_factor"]
                c.require("land and missing data are masked", Implies(And(0 <= si, si < NXS, 0 <= sj, sj < n), c.at(mk, k, F64) == If(Or(raw == miss, sc <= 0), z3.RealVal(0), z3.RealVal(1))))
                c.require("scaled depth", Implies(And(0 <= si, si < NXS, 0 <= sj, sj < n, raw != miss), c.at(da, k, F64) == sc))
                nb = c.eng.mkbase(freshname("interpolated"), 1, F64)
                c.bulk(out, F64, lambda *ix: And(ix[-1] >= 0, ix[-1] < ND), lambda *ix: nb.read((ix[-1],)))
            return f

        def change(stage):
            def f(c):
                nb = c.eng.mkbase(freshname("changed"), 1, F64)
                c.bulk(a["depth"], F64, lambda *ix: And(ix[-1] >= 0, ix[-1] < ND), lambda *ix: nb.read((ix[-1],)))
            return f

        def filt(c):
            n1, n2, np, al, dep, dom = c.args
            c.require("arguments of the filter", And(n1 == a["nx_dst"], n2 == a["ny_dst"], np == a["num_filter_pass"], al == a["smooth_topo_allow_deepening"], same(dep, a["depth"]), a["filter_topog"] != 0))
            change(2)(c)

        def deepest(c):
            n, z, dep, dom = c.args
            c.require("levels are known", And(n == nk, z3.BoolVal(vgrid), same(dep, a["depth"])))

        def process(c):
            v = c.args
            names = ["tripolar_grid", "cyclic_x", "cyclic_y", "full_cell", "flat_bottom", "adjust_topo", "fill_isolated_cells", "min_thickness", "open_very_this_cell", "fraction_full_cell", "round_shallow",
                     "deepen_shallow", "fill_shallow", "dont_change_landmask", "kmt_min"]
            c.require("arguments of the processing", And(z3.BoolVal(vgrid), v[0] == nk, same(v[1], a["depth"]), same(v[2], a["num_levels"]), *[x == a[n] for x, n in zip(v[4:], names)]))
            k = fresh("k", Z)
            c.require("levels are the bottoms of the model levels", Implies(And(0 <= k, k < nk), c.at(v[3], k, F64) == ZE(2 * (k + 1))))
            c.require("first row is land if asked for", Implies(And(a["fill_first_row"] != 0, 0 <= di, di < a["nx_dst"]), c.at(a["depth"], di, F64) == 0))
            change(3)(c)
            done["processed"] = True
        cs = {"mpp_open": lambda c: fresh("fid", Z), "mpp_close": lambda c: None, "mpp_get_dimlen": dimlen, "mpp_get_varid": varid, "mpp_get_var_value": value, "mpp_get_var_dimname": dimname, "mpp_get_var_att_double": att, "mpp_get_var_att": untyped,
              "mpp_get_var_value_block": blockread, "mpp_get_var_type": lambda c: iv(vtype), "minval_double": ext(ymin, True), "maxval_double": ext(ymax, False), "conserve_interp": interp(False),
              "conserve_interp_great_circle": interp(True), "filter_topo": filt, "show_deepest": deepest, "process_topo": process, "mpp_error": die}
        P = Proof(TP, "create_realistic_topog", contracts=cs, timeout=60)
        a = P.a
        a["vgrid_file"].region.nullfn = lambda *ix: z3.BoolVal(not vgrid)
        nk = (NZV - 1) / 2
        ND, NP = a["nx_dst"] * a["ny_dst"], (a["nx_dst"] + 1) * (a["ny_dst"] + 1)
        P.requires(NXS >= 2, NYS >= 2, a["nx_dst"] >= 1, a["ny_dst"] >= 1, NZV >= 3)
        for n, k in (("x_dst", NP), ("y_dst", NP), ("depth", ND)):
            P.elem(a[n], F64)
            P.length(a[n], k)
        P.elem(a["num_levels"], I32)
        P.length(a["num_levels"], ND)
        XD, YD = (lambda k: P.pre.at(a["x_dst"], simp(k), F64)), (lambda k: P.pre.at(a["y_dst"], simp(k), F64))
        # corners of the source axes in radians
        XC, YC = z3.Function("x_corner", Z, R), z3.Function("y_corner", Z, R)
        q = z3.Int("q")
        P.requires(forall([q], Implies(And(0 <= q, q <= NXS), XC(q) == mid(XT, q, NXS) * D2R), [XC(q)]), forall([q], Implies(And(0 <= q, q <= NYS), YC(q) == mid(YT, q, NYS) * D2R), [YC(q)]))
        q2 = z3.Int("q2")
        r = P.ghost("row")
        P.requires(forall([q, q2], Implies(And(0 <= q, q < q2, q2 <= NYS), YC(q) < YC(q2)), [YC(q), YC(q2)]), ymin <= ymax)
        ki, kj, si, sj, dk, di = [P.ghost(n) for n in ("ki", "kj", "si", "sj", "dk", "di")]
        P.requires(0 <= r, r < NYS)
        val = lambda k: RAW(k) if vtype != 4 else toR(z3.ToInt(RAW(k)))
        G = Grid(P)
        A = lambda L, n, k: L.at(L[n], k, F64)
        fall = lambda L, n, f, lo, hi: (n, forall([q], Implies(And(lo <= q, q < hi), A(L, n, q) == f(q)), [A(L, n, q)]))
        sizes = lambda L: [("sizes", And(L["nx_src"] == NXS, L["ny_src"] == NYS, L["nxp_src"] == NXS + 1, L["nyp_src"] == NYS + 1))]
        zwf = lambda L: ([("levels", And(L["nk"] == nk, NZV % 2 == 1))] + [fall(L, "zw", lambda k: ZE(2 * (k + 1)), 0, nk)]) if vgrid else []
        mis = lambda L: [("missing", L["missing"] == miss)]
        base = lambda L: sizes(L) + zwf(L) + mis(L)
        cen = lambda L: [fall(L, "xt_src", lambda k: XT(k), 0, NXS), fall(L, "yt_src", lambda k: YT(k), 0, NYS)]
        md = lambda T: (lambda k: mid(T, k, NXS if T is XT else NYS))
        if vgrid:
            P.loop(0, inv=lambda L: [("k", And(0 <= L["k"], L["k"] <= nk)), ("nk", L["nk"] == nk), ("odd", NZV % 2 == 1), fall(L, "zw", lambda k: ZE(2 * (k + 1)), 0, L["k"]), fall(L, "zeta", lambda k: ZE(k), 0, NZV)])
        o = 0 if vgrid else -1
        P.loop(1 + o, inv=lambda L: base(L) + cen(L) + [("i", And(1 <= L["i"], L["i"] <= NXS)), fall(L, "xc_src", md(XT), 1, L["i"])])
        P.loop(2 + o, inv=lambda L: base(L) + cen(L) + [("j", And(1 <= L["j"], L["j"] <= NYS)), fall(L, "xc_src", md(XT), 0, NXS + 1), fall(L, "yc_src", md(YT), 1, L["j"])])
        P.loop(3 + o, inv=lambda L: base(L) + [("i", And(0 <= L["i"], L["i"] <= NXS + 1)), ("xc", forall([q], Implies(And(0 <= q, q <= NXS), A(L, "xc_src", q) == If(q < L["i"], XC(q), md(XT)(q))), [A(L, "xc_src", q)])),
                                                fall(L, "yc_src", md(YT), 0, NYS + 1)])
        P.loop(4 + o, inv=lambda L: base(L) + [("j", And(0 <= L["j"], L["j"] <= NYS + 1)), ("yc", forall([q], Implies(And(0 <= q, q <= NYS), A(L, "yc_src", q) == If(q < L["j"], YC(q), md(YT)(q))), [A(L, "yc_src", q)])),
                                                fall(L, "xc_src", lambda k: XC(k), 0, NXS + 1)])
        crn = lambda L: base(L) + [fall(L, "xc_src", lambda k: XC(k), 0, NXS + 1), fall(L, "yc_src", lambda k: YC(k), 0, NYS + 1)]
        outs = lambda L, hi: [fall(L, "x_out", lambda k: XD(k) * D2R, 0, hi), fall(L, "y_out", lambda k: YD(k) * D2R, 0, hi)]
        P.loop(5 + o, inv=lambda L: crn(L) + outs(L, L["i"]) + [("i", And(0 <= L["i"], L["i"] <= NP))])
        ins = lambda k: And(YC(k) > ymin, YC(k) < ymax)

        def scan(L):
            j, js, je = L["j"], L["jstart"], L["jend"]
            return crn(L) + outs(L, NP) + [("j", And(0 <= j, j <= NYS + 1)), ("bounds", And(L["y_min"] == ymin, L["y_max"] == ymax)), ("range", Or(And(js == NYS, je == -1), And(0 <= js, js <= je, je <= NYS))),
                                           ("empty", Implies(And(js == NYS, je == -1), Not(Or(And(r < j, ins(r)), And(r + 1 < j, ins(r + 1)))))),
                                           ("inside", And(*[Implies(And(k < j, ins(k)), And(js <= k, k <= je)) for k in (r, r + 1)])),
                                           ("is inside", Implies(js <= je, And(js < j, ins(js), je < j)))]
        P.loop(6 + o, inv=scan)
        n_ = lambda L: L["ny_now"]

        def rows(L):
            js, je = L["jstart"], L["jend"]
            return [("rows", And(0 <= js, js <= je, je < NYS, n_(L) == je - js + 1)), ("used", Implies(And(YC(r) < ymax, YC(r + 1) > ymin), And(js <= r, r <= je))), ("all rows on the grid", Implies(a["on_grid"] != 0, And(js == 0, je == NYS - 1)))]

        def grid(n):
            def f(L):
                j = L["j"]
                i = L["i"] if n else None
                W = NXS + 1
                if not P.eng.dry:
                    G.flat(ki, kj, W, n_(L) + 1)
                    if n:
                        G.flat(i, j, W, n_(L) + 1)
                        G.uniq(i, j, ki, kj, W)
                        G.cong(i, j, ki, kj, W)
                k = simp(kj * W + ki)
                own = And(0 <= ki, ki <= NXS, 0 <= kj, kj <= n_(L))
                xd = kj < j if n == 0 else Or(kj < j, And(kj == j, ki < i)) if n == 1 else kj <= j
                yd = kj < j if n < 2 else Or(kj < j, And(kj == j, ki < i))
                e = crn(L) + outs(L, NP) + rows(L) + [("j", And(0 <= j, j <= n_(L) + (1 if n == 0 else 0)))]
                if n:
                    e += [("i", And(0 <= i, i <= W)), ("jj", L["jj"] == j + L["jstart"])]
                return e + [("x", Implies(And(own, xd), A(L, "x_src", k) == XC(ki))), ("y", Implies(And(own, yd), A(L, "y_src", k) == YC(simp(kj + L["jstart"]))))]
            return f
        for n in range(3):
            P.loop(7 + n + o, inv=grid(n))

        def ready(L):
            k = simp(kj * (NXS + 1) + ki)
            own = And(0 <= ki, ki <= NXS, 0 <= kj, kj <= n_(L))
            if not P.eng.dry:
                G.flat(ki, kj, NXS + 1, n_(L) + 1)
                G.flat(si, sj, NXS, n_(L))
            return base(L) + outs(L, NP) + rows(L) + [("x", Implies(own, A(L, "x_src", k) == XC(ki))), ("y", Implies(own, A(L, "y_src", k) == YC(simp(kj + L["jstart"]))))]
        stnr = lambda L, hi: [("start", And(*[Implies(hi > k, And(L.at(L["start"], iv(k), I64) == 0, L.at(L["nread"], iv(k), I64) == 1)) for k in range(4)]))]
        P.loop(10 + o, inv=lambda L: ready(L) + stnr(L, L["i"]) + [("i", And(0 <= L["i"], L["i"] <= 4))])
        raw = lambda L, k: val(simp(L["jstart"] * NXS + k))
        mxt = 11 + o
        if vtype == 4:
            P.loop(mxt, inv=lambda L: ready(L) + [("i", And(0 <= L["i"], L["i"] <= NXS * n_(L))), ("copied", forall([q], Implies(And(0 <= q, q < L["i"]), A(L, "depth_src", q) == raw(L, q)), [A(L, "depth_src", q)])),
                                                  ("read", forall([q], Implies(And(0 <= q, q < NXS * n_(L)), L.at(L["depth_int"], q, I32) == z3.ToInt(RAW(simp(L["jstart"] * NXS + q)))), [L.at(L["depth_int"], q, I32)]))])
            mxt += 1
        sc = lambda L, k: If(raw(L, k) == miss, raw(L, k), raw(L, k) * a["scale_factor"])
        mk = lambda L, k: If(Or(raw(L, k) == miss, raw(L, k) * a["scale_factor"] <= 0), z3.RealVal(0), z3.RealVal(1))
        sg = simp(sj * NXS + si)

        def masks(L):
            i = L["i"]
            cell = lambda k, w: Implies(And(0 <= k, k < NXS * n_(L), k < i), And(A(L, "depth_src", k) == sc(L, k), A(L, "mask_src", k) == mk(L, k)))
            return ready(L) + [("i", And(0 <= i, i <= NXS * n_(L))), ("source cell", cell(sg, 0)), ("cell on grid", cell(dk, 0))] + \
                [("to do %d" % w, Implies(And(i <= k, 0 <= k, k < NXS * n_(L)), A(L, "depth_src", k) == raw(L, k))) for w, k in enumerate((sg, dk))] + \
                [("all to do", forall([q], Implies(And(i <= q, q < NXS * n_(L)), A(L, "depth_src", q) == raw(L, q)), [A(L, "depth_src", q)]))]
        P.loop(mxt, inv=masks)
        dep = lambda L, k: L.at(a["depth"], k, F64)

        def ongrid(L):
            i = L["i"]
            return base(L) + rows(L) + [("sizes agree", And(NXS == a["nx_dst"], n_(L) == a["ny_dst"])), ("i", And(0 <= i, i <= NXS * n_(L))), ("source", Implies(And(0 <= dk, dk < ND), A(L, "depth_src", dk) == sc(L, dk))),
                                        ("copied", Implies(And(0 <= dk, dk < i), dep(L, dk) == If(sc(L, dk) == miss, z3.RealVal(0), sc(L, dk))))]
        P.loop(ORD[0] + mxt, inv=ongrid)
        P.loop(ORD[1] + mxt, inv=lambda L: base(L) + [("i", And(0 <= L["i"], L["i"] <= a["nx_dst"])), ("row", Implies(And(0 <= di, di < L["i"]), dep(L, di) == 0)),
                                                     ("plain copy", Implies(And(a["on_grid"] != 0, a["filter_topog"] == 0, 0 <= dk, dk < ND, dk >= a["nx_dst"]), dep(L, dk) == If(sc0 == miss, z3.RealVal(0), sc0)))])
        sc0 = If(val(dk) == miss, val(dk), val(dk) * a["scale_factor"])
        P.run()
        if not vgrid:
            P.ensures("first row is land if asked for", Implies(And(a["fill_first_row"] != 0, 0 <= di, di < a["nx_dst"]), dep(P.post, di) == 0))
            P.ensures("data on the grid are copied", Implies(And(a["on_grid"] != 0, a["filter_topog"] == 0, 0 <= dk, dk < ND, Or(a["fill_first_row"] == 0, dk >= a["nx_dst"])),
                                                             dep(P.post, dk) == If(sc0 == miss, z3.RealVal(0), sc0)))
        elif "processed" not in done:
            raise AttachError("process_topo is not called")
        return P
    return b


ORD = (1, 2)


def proofs(tier):
    return [("min4_int", p_min("min4_int", min4, I32)), ("min4_double", p_min("min4_double", min4, F64)), ("max4_int", p_min("max4_int", max4, I32)), ("max4_double", p_min("max4_double", max4, F64)),
            ("hmin", p_block("hmin", F64)), ("kmin", p_block("kmin", I32)), ("remove_isolated_cells: levels", p_isolated(True)), ("remove_isolated_cells: sweep", p_isolated(False)),
            ("restrict_partial_cells", p_restrict), ("enforce_min_depth", p_shallow), ("process_topo", p_process_all), ("filter_topo", p_filter), ("set_depth", p_setdepth),
            ("rectangular", p_rect), ("bowl", p_bowl), ("gaussian", p_gauss), ("idealized", p_ideal), ("box channel", p_box), ("dome", p_dome),
            ("realistic, levels", p_real(True, 6)), ("realistic, no levels", p_real(False, 6)), ("realistic, integers", p_real(False, 4))]


# ---- the stand-in: the whole tool on generated mosaics, each depth and level recomputed
def o_index(v, a):
    """the level or row nearest to v (the lower one where two are as near)"""
    if v < a[0]:
        return 0
    if v > a[-1]:
        return len(a) - 1
    for i in range(1, len(a)):
        if v <= a[i]:
            return i - 1 if a[i] - v > v - a[i - 1] else i
    return 0


def o_trapezoid(d, xb, yb, a1, s1, e1, a2, s2, e2, v):
    js, je = sorted((o_index(a1, yb), o_index(a2, yb)))
    w1 = sorted((o_index(s1, xb), o_index(e1, xb)))
    w2 = sorted((o_index(s2, xb), o_index(e2, xb)))
    lo, hi = w1
    r = 1.0 if js == je else 1.0 / (je - js)

    def rnd(t):
        c = math.ceil(t)
        return c - 1 if c - t > 0.5 else c
    for j in range(js, je + 1):
        d[j, lo:hi + 1] = v
        lo = rnd(r * ((j - js) * w2[0] + (je - j) * w1[0]) + 1.0e-5)
        hi = rnd(r * ((j - js) * w2[1] + (je - j) * w1[1]) + 1.0e-5)


def o_filter(d, n, deepen):
    d = d.copy()
    wet = d != 0
    f = np.array([[1, 2, 1], [2, 4, 2], [1, 2, 1]]) / 16.0
    for _ in range(n):
        s = d.copy()
        for j in range(1, d.shape[0] - 1):
            for i in range(1, d.shape[1] - 1):
                v = sum(f[p + 1, q + 1] * (d[j + p, i + q] if wet[j + p, i + q] else d[j, i]) for p in (-1, 0, 1) for q in (-1, 0, 1))
                if not deepen:
                    v = min(v, d[j, i])
                s[j, i] = v if wet[j, i] else 0
        d = s
    return d


def o_levels(d, c, zw):
    """depth and number of levels (0: land) of a grid with the bottoms of levels zw"""
    nk, (nj, ni) = len(zw), d.shape
    h, k = np.zeros((nj + 2, ni + 2)), np.full((nj + 2, ni + 2), -1)
    for j in range(nj):
        for i in range(ni):
            v, t = d[j, i], -1
            if v > 0:
                t = o_index(v, zw)
                if zw[t] < v:
                    if v - zw[t] < c["min_thickness"] or t == nk - 1:
                        v = zw[t]
                    else:
                        t += 1
                if c["full_cell"]:
                    v = zw[t]
                if c["flat_bottom"]:
                    v, t = zw[-1], nk - 1
            h[j + 1, i + 1], k[j + 1, i + 1] = v, t
    for a in (h, k):
        if c["edge"] == "fold":
            a[nj + 1, 1:ni + 1] = a[nj, ni:0:-1]
        elif c["edge"] == "cyclic":
            a[0, 1:ni + 1], a[nj + 1, 1:ni + 1] = a[nj, 1:ni + 1], a[1, 1:ni + 1]
        if c["cyclic_x"]:
            a[:, 0], a[:, ni + 1] = a[:, ni], a[:, 1]
    if c["adjust"]:
        if c["fill_isolated"]:
            for j in range(1, nj + (c["edge"] != "fold")):
                for i in range(1, ni + 1):
                    bl = [(slice(q, q + 2), slice(p, p + 2)) for q in (j - 1, j) for p in (i - 1, i)]
                    t = max(k[b].min() for b in bl)
                    if t != k[j, i] and (t >= 0 or not c["keep_mask"]):
                        h[j, i], k[j, i] = max(h[b].min() for b in bl), t
        f = c["fraction"]
        for j in range(1, nj + 1):
            for i in range(1, ni + 1):
                t = k[j, i]
                if t > 0:
                    p = min(50.0, zw[0]) if f == 0 else max(f * (zw[t] - zw[t - 1]), c["min_thickness"])
                    w = h[j, i] - zw[t - 1]
                    if w < p:
                        if not c["open_thin"] and zw[t - 1] + p - h[j, i] > w:
                            h[j, i], k[j, i] = zw[t - 1], t - 1
                        else:
                            h[j, i] = zw[t - 1] + p
        m = c["kmt_min"] - 1
        for j in range(1, nj + 1):
            for i in range(1, ni + 1):
                if h[j, i] > 0 and k[j, i] < m:
                    sh = c["shallow"]
                    if sh == "fill" or (sh in ("", "round") and zw[k[j, i]] < 0.5 * zw[m]):
                        h[j, i], k[j, i] = 0, -1
                    else:
                        h[j, i], k[j, i] = zw[m], m
    return h[1:-1, 1:-1], k[1:-1, 1:-1] + 1


def o_remap(src, wet, xt, yt, x, y):
    """area mean of the wet source cells over each cell of a regular grid"""
    def edges(t):
        m = 0.5 * (t[1:] + t[:-1])
        return np.concatenate([[2 * t[0] - m[0]], m, [2 * t[-1] - m[-1]]])

    def over(a, b):
        return np.maximum(0, np.minimum(a[None, 1:], b[1:, None]) - np.maximum(a[None, :-1], b[:-1, None]))
    xs, ys, xd, yd = edges(xt), np.sin(np.radians(edges(yt))), x[0], np.sin(np.radians(y[:, 0]))
    wx = sum(over(xs + s, xd) for s in (-720, -360, 0, 360, 720))
    wy = over(ys, yd)
    a = wy @ wet @ wx.T
    t = wy @ (wet * np.where(wet > 0, src, 0)) @ wx.T
    return np.where(a > 0, t / np.where(a > 0, a, 1), 0)


def search(S):
    import os
    import re
    import shutil
    import subprocess
    from engine import search as H, nc
    from engine.irparse import scratch
    mt = H.tool("make_topog", ["src/make-topog/make_topog.c", TP])
    TRAPS = [(-90, 0, 360, -80, 0, 360), (-80, 335, 360, -70, 360, 360), (-80, 0, 360, -70, 0, 170), (-80, 225, 300, -68, 285, 300), (-70, 0, 155, -67, 50, 145),
             (-35, 116, 120, -31, 114, 130), (-38, 140, 151, -31, 130, 151), (-31, 115, 153, -20, 113, 149), (-20, 113, 149, -11, 131, 143),
             (-50, 286, 292, -40, 287, 298), (-40, 287, 298, -20, 290, 320), (-20, 290, 320, -16, 279, 325), (-16, 279, 325, 0, 280, 310), (0, 280, 310, 11, 285, 300),
             (6, 282, 285, 20, 255, 263), (20, 255, 263, 30, 245, 266), (25, 278, 280, 30, 275, 279), (30, 245, 280, 40, 236, 286), (40, 236, 286, 50, 236, 303),
             (50, 236, 303, 60, 220, 296), (60, 195, 296, 65, 220, 296), (65, 220, 296, 70, 198, 288), (70, 198, 220, 72, 203, 203), (70, 230, 290, 75, 240, 280),
             (60, 315, 315, 75, 302, 341), (-35, 19, 28, 6, 8, 50), (6, 0, 50, 18, 0, 56), (18, 0, 56, 26, 0, 59), (6, 350, 360, 18, 342, 360), (18, 342, 360, 26, 345, 360),
             (26, 345, 360, 40, 353, 360), (40, 353, 360, 50, 360, 360), (8, 77, 78, 26, 65, 90), (4, 99, 100, 26, 90, 115), (26, 0, 126, 40, 0, 122), (40, 0, 130, 50, 0, 140),
             (50, 0, 140, 60, 8, 140), (60, 8, 163, 65, 13, 180), (65, 13, 188, 70, 20, 180), (70, 70, 180, 75, 90, 100)]
    KINDS = ["realistic"] * 5 + ["rectangular_basin", "gaussian", "bowl", "idealized", "box_channel", "dome", "realistic"]

    def gen(r, q):
        kind = KINDS[q % len(KINDS)]
        small = kind in ("idealized",)
        nx, ny = r.randint(3, 40 if small else 9), r.randint(3, 30 if small else 9)
        c = dict(kind=kind, seed=r.randrange(1 << 30), nx=nx, ny=ny, curved=r.random() < 0.5 and kind not in ("realistic", "idealized"), ntiles=1)
        if kind in ("rectangular_basin", "bowl", "gaussian", "box_channel", "dome") and r.random() < 0.2:
            c["ntiles"] = 2
        rd = lambda a, b: round(r.uniform(a, b), 3)
        lon0, lat0 = r.choice([0, 10, -30, -280]), r.choice([-80, -60, -20, 5])
        if kind == "idealized":
            lon0, lat0 = r.choice([0, 1, -3]), -90
            c.update(dx=360.0 / nx, dy=180.0 / ny)
        else:
            c.update(dx=float(r.choice([1, 2, 3, 5])), dy=float(r.choice([1, 2, 3, 5])))
        c.update(lon0=float(lon0), lat0=float(lat0))
        o = {}
        c["o"] = o
        xe, yn = lon0 + c["dx"] * nx, lat0 + c["dy"] * ny
        if kind != "realistic":
            o["bottom_depth"] = rd(10, 6000)
            o["min_depth"] = rd(0, 50)
        if kind == "gaussian":
            o.update(gauss_amp=rd(0, 1), gauss_scale=rd(0.1, 1), slope_x=rd(-90, 90), slope_y=rd(-90, 90))
        if kind == "bowl":
            o.update(bowl_west=rd(lon0, (lon0 + xe) / 2), bowl_east=rd((lon0 + xe) / 2, xe), bowl_south=rd(lat0, (lat0 + yn) / 2), bowl_north=rd((lat0 + yn) / 2, yn))
        if kind == "box_channel":
            for s in ("west", "east"):
                a, b = sorted((r.randint(1, ny + 2), r.randint(1, ny + 2)))
                o.update({"j%s_south" % s: a, "j%s_north" % s: b})
        if kind == "dome":
            w = rd(lon0, xe)
            o.update(dome_slope=rd(0.001, 0.05), dome_bottom=rd(1000, 5000), dome_embayment_depth=rd(10, 900), dome_embayment_west=w, dome_embayment_east=w + rd(0, xe - lon0), dome_embayment_south=rd(lat0, yn))
        if kind == "realistic":
            c.update(edge=r.choice(["", "", "fold", "cyclic"]), cyclic_x=r.random() < 0.5, on_grid=r.random() < 0.6, vgrid=r.random() < 0.75, filter=r.choice([0, 0, 0, 1, 2]), deepen=r.random() < 0.4,
                     first_row=r.random() < 0.3, scale=r.choice([1.0, -1.0, 0.5]), type=r.choice("dfi"), full_cell=r.random() < 0.15, flat_bottom=r.random() < 0.1, adjust=r.random() < 0.85,
                     fill_isolated=r.random() < 0.6, keep_mask=r.random() < 0.5, kmt_min=r.randint(1, 3), fraction=r.choice([0.0, 0.2, 0.5, 1.0]), open_thin=r.random() < 0.5,
                     min_thickness=r.choice([0.0, 0.1, 1.0]), shallow=r.choice(["", "round", "fill", "deepen"]), verbose=r.random() < 0.3, nk=r.randint(3, 7), gca=False)
            if c["edge"] == "fold":
                c["nx"] += c["nx"] % 2
            c["sx"], c["sy"] = r.choice([1, 2, 3]), r.choice([1, 2, 3, 20])
        return c

    def grid(c, t):
        """the supergrid of a tile, lines of the model grid at the even points"""
        r = random.Random(c["seed"] + t)
        i, j = np.arange(2 * c["nx"] + 1), np.arange(2 * c["ny"] + 1)[:, None]
        x = c["lon0"] + 0.5 * c["dx"] * i + 0 * j
        y = c["lat0"] + 0.5 * c["dy"] * j + 0 * i
        if t:
            x, y = x + 2 * c["dx"], y + c["dy"]
        if c["curved"]:
            jit = lambda s: np.array([[r.uniform(-s, s) for _ in i] for _ in j])
            x, y = x + jit(0.2 * c["dx"]), y + jit(0.2 * c["dy"])
        return x, y

    def source(c, zw, x, y):
        """source depths (as in the file, before scaling), the points of its axes"""
        r = random.Random(c["seed"] * 3 + 1)
        if c["on_grid"]:
            nx, ny = c["nx"], c["ny"]
            xt, yt = x[1, 1::2], y[1::2, 1]
        else:
            nx, ny = 360 // (6 * c["sx"]), 180 // (3 * c["sy"])
            xt, yt = (np.arange(nx) + 0.5) * 6.0 * c["sx"], -90 + (np.arange(ny) + 0.5) * 3.0 * c["sy"]
        v = np.zeros((ny, nx))
        miss = -9999.0
        for j in range(ny):
            for i in range(nx):
                u = r.random()
                if u < 0.2:
                    d = r.choice([0.0, -5.0, -120.0])
                elif u < 0.25:
                    v[j, i] = miss
                    continue
                elif u < 0.6:
                    d = zw[r.randrange(len(zw))] + r.choice([0, 0.03125, -0.03125, 0.5, -0.5, 2, -2])
                else:
                    d = r.uniform(0.5, zw[-1] * 1.2)
                d /= c["scale"]
                v[j, i] = round(d) if c["type"] == "i" else float(np.float32(d)) if c["type"] == "f" else d
        return v, xt, yt, miss

    def run(c):
        d = os.path.join(scratch(), "mt%d" % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        p = lambda f: os.path.join(d, f)
        nx, ny, n = c["nx"], c["ny"], c["ntiles"]
        gs = [grid(c, t) for t in range(n)]
        txt = lambda s: np.frombuffer(s.encode().ljust(255, b"\0"), "S1")
        for t in range(n):
            nc.write(p("g%d.nc" % t), [("string", 255), ("nx", 2 * nx), ("ny", 2 * ny), ("nxp", 2 * nx + 1), ("nyp", 2 * ny + 1)],
                     [("tile", "c", ("string",), txt("tile%d" % (t + 1)), {}), ("x", "d", ("nyp", "nxp"), gs[t][0], {}), ("y", "d", ("nyp", "nxp"), gs[t][1], {})])
        dims, vs = [("ntiles", n), ("string", 255)], [("gridfiles", "c", ("ntiles", "string"), np.array([txt("g%d.nc" % t) for t in range(n)]), {}), ("gridtiles", "c", ("ntiles", "string"), np.array([txt("tile%d" % (t + 1)) for t in range(n)]), {})]
        cmd = ["--mosaic", "m.nc", "--topog_type", c["kind"]]
        real = c["kind"] == "realistic"
        for k, v in c["o"].items():
            cmd += ["--" + k, repr(v)]
        if real:
            ct = []
            if c["cyclic_x"]:
                ct.append("%d:%d,1:%d::1:1,1:%d" % (2 * nx, 2 * nx, 2 * ny, 2 * ny))
            if c["edge"] == "fold":
                ct.append("1:%d,%d:%d::%d:%d,%d:%d" % (nx, 2 * ny, 2 * ny, 2 * nx, nx + 1, 2 * ny, 2 * ny))
            elif c["edge"] == "cyclic":
                ct.append("1:%d,%d:%d::1:%d,1:1" % (2 * nx, 2 * ny, 2 * ny, 2 * nx))
            if ct:
                dims.append(("ncontact", len(ct)))
                vs += [("contacts", "c", ("ncontact", "string"), np.array([txt("m:tile1::m:tile1")] * len(ct)), {}), ("contact_index", "c", ("ncontact", "string"), np.array([txt(k) for k in ct]), {})]
            r = random.Random(c["seed"] + 77)
            zw = np.cumsum([r.choice([4.0, 8.0, 10.0, 20.0, 60.0, 100.0]) for _ in range(c["nk"])])
            src, xt, yt, miss = source(c, zw, *gs[0])
            nc.write(p("s.nc"), [("lat", len(yt)), ("lon", len(xt))], [("lat", "d", ("lat",), yt, {}), ("lon", "d", ("lon",), xt, {}),
                                                                      ("topo", c["type"], ("lat", "lon"), src, {"missing_value": {"d": np.float64, "f": np.float32, "i": np.int32}[c["type"]](miss)})])
            cmd += ["--topog_file", "s.nc", "--topog_field", "topo", "--scale_factor", repr(c["scale"])]
            flags = [("on_grid", "on_grid"), ("first_row", "fill_first_row"), ("full_cell", "full_cell"), ("flat_bottom", "flat_bottom"), ("keep_mask", "dont_change_landmask"), ("deepen", "smooth_topo_allow_deepening"), ("verbose", "verbose")]
            cmd += ["--" + f for k, f in flags if c[k]]
            cmd += ["--dont_adjust_topo"] * (not c["adjust"]) + ["--dont_fill_isolated_cells"] * (not c["fill_isolated"]) + ["--dont_open_very_this_cell"] * (not c["open_thin"])
            if c["filter"]:
                cmd += ["--filter_topog", "--num_filter_pass", str(c["filter"])]
            if c["shallow"]:
                cmd += ["--%s_shallow" % c["shallow"]]
            cmd += ["--kmt_min", str(c["kmt_min"]), "--fraction_full_cell", repr(c["fraction"]), "--min_thickness", repr(c["min_thickness"])]
            if c["vgrid"]:
                z = np.zeros(2 * c["nk"] + 1)
                z[2::2] = zw
                z[1::2] = 0.5 * (z[0:-1:2] + z[2::2])
                nc.write(p("v.nc"), [("nzv", len(z))], [("zeta", "d", ("nzv",), z, {})])
                cmd += ["--vgrid_file", "v.nc"]
        nc.write(p("m.nc"), dims, vs)
        try:
            q = subprocess.run([mt] + cmd, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
        except subprocess.TimeoutExpired:
            return "make_topog %s does not end" % " ".join(cmd)
        if q.returncode:
            return "make_topog %s ended with status %d: %s" % (" ".join(cmd), q.returncode, q.stderr.decode(errors="replace").strip().split("\n")[-1][:200])
        subprocess.run(["nccopy", "-k", "classic", "topog.nc", "c.nc"], cwd=d, check=True)
        out = nc.read(p("c.nc"))[1]
        for t in range(n):
            x, y = gs[t]
            xc, yc = x[::2, ::2], y[::2, ::2]
            mid = lambda a: 0.25 * (a[:-1, :-1] + a[1:, :-1] + a[:-1, 1:] + a[1:, 1:])
            xm, ym = mid(xc), mid(yc)
            o = c["o"]
            B = o.get("bottom_depth")
            lev = None
            if real:
                wet = (src != miss) & (src * c["scale"] > 0)
                if c["on_grid"]:
                    w = np.where(src == miss, 0, src * c["scale"])
                    if c["filter"] and (w < 0).any():
                        return None      # the filter is for depths
                else:
                    w = o_remap(src * c["scale"], wet.astype(float), xt, yt, xc, yc)
                if c["filter"]:
                    w = o_filter(w, c["filter"], c["deepen"])
                if c["first_row"]:
                    w = w.copy()
                    w[0] = 0
                if c["vgrid"]:
                    if not c["on_grid"]:
                        # depths come out of a mean: near the border of a level or of a thickness nothing is decided
                        alt = [o_levels(w * (1 + e), c, zw) for e in (-1e-9, 1e-9)]
                        if (alt[0][1] != alt[1][1]).any() or np.abs(alt[0][0] - alt[1][0]).max() > 1e-3:
                            return None
                    w, lev = o_levels(w, c, zw)
            elif c["kind"] == "rectangular_basin":
                w = np.full((ny, nx), B)
            elif c["kind"] == "bowl":
                e = lambda v, s: 1.0 - np.exp(-(v / s) ** 2)
                w = o["min_depth"] + B * e(ym - o["bowl_south"], 2) * e(ym - o["bowl_north"], 2) * e(xm - o["bowl_west"], 4) * e(xm - o["bowl_east"], 4)
                w = np.where((xm <= o["bowl_west"]) | (xm >= o["bowl_east"]) | (ym <= o["bowl_south"]) | (ym >= o["bowl_north"]), o["min_depth"], w)
            elif c["kind"] == "gaussian":
                xw, xe, ys, yn = xm.min(), xm.max(), ym.min(), ym.max()
                s = o["gauss_scale"] * min(xe - xw, yn - ys)
                w = B - o["gauss_amp"] * B * np.exp(-((xm - 0.5 * (xw + xe)) ** 2 + (ym - 0.5 * (ys + yn)) ** 2) / s ** 2) - o["slope_x"] * (xm - xw) - o["slope_y"] * (ym - ys)
                w = np.maximum(w, o["min_depth"])
            elif c["kind"] == "box_channel":
                w = np.full((ny, nx), B)
                w[0] = w[-1] = 0
                for col, s in ((0, "west"), (-1, "east")):
                    w[:o["j%s_south" % s], col] = 0
                    w[o["j%s_north" % s]:, col] = 0
            elif c["kind"] == "idealized":
                w = np.full((ny, nx), B)
                xb, yb = 0.5 * (xc[0, :-1] + xc[0, 1:]), 0.5 * (yc[:-1, 0] + yc[1:, 0])
                for tr in TRAPS:
                    o_trapezoid(w, xb, yb, *tr, 0.0)
                I, J = np.arange(1, nx + 1), np.arange(1, ny + 1)[:, None]
                w = np.where(w > 0, np.maximum(B * (1 - 0.4 * np.abs(np.cos(J * math.pi / (ny + 1)) * np.sin(I * 2 * math.pi / (nx + 1)))), o["min_depth"]), w)
                for tr, f in (((-20, 340, 350, 30, 315, 325), .666), ((30, 315, 325, 60, 340, 330), .666), ((-60, 260, 230, 40, 200, 180), .666), ((-50, 240, 240, 30, 190, 190), .5)):
                    o_trapezoid(w, xb, yb, *tr, f * B)
            else:
                xm, ym = x[1::2, 1::2], y[1::2, 1::2]
                W, E, So = o["dome_embayment_west"], o["dome_embayment_east"], o["dome_embayment_south"]
                for i in range(nx - 1):
                    if xm[0, i] <= W <= xm[0, i + 1]:
                        W = xm[0, i]
                    if xm[0, i] <= E <= xm[0, i + 1]:
                        E = xm[0, i]

                def snap(v):
                    for j in range(ny - 1):
                        if ym[j, 0] <= v <= ym[j + 1, 0]:
                            v = ym[j, 0]
                    return v
                So = snap(So)
                g = o["dome_slope"] * 111.324e3
                s0 = snap(So - (o["dome_bottom"] - o["dome_embayment_depth"]) / g)
                w = np.where((ym >= s0) & (ym < So), o["dome_bottom"] - g * (ym - s0), o["dome_bottom"])
                w = np.where(ym >= So, 0.0, w)
                w = np.where((xm >= W) & (xm <= E) & (ym >= So), o["dome_embayment_depth"], w)
            sfx = "" if n == 1 else "_tile%d" % (t + 1)
            got = np.asarray(out["depth" + sfx][2], float)
            if got.shape != w.shape:
                return "depth of shape %r, not %r" % (got.shape, w.shape)
            bad = ~(np.abs(got - w) <= 1e-9 + 1e-7 * np.abs(w))
            if bad.any():
                j, i = np.argwhere(bad)[0]
                return "make_topog %s: depth%s[%d][%d] is %r, not %r" % (" ".join(cmd), sfx, j, i, float(got[j, i]), float(w[j, i]))
            if lev is not None:
                gl = np.asarray(out["num_levels"][2])
                if (gl != lev).any():
                    j, i = np.argwhere(gl != lev)[0]
                    return "make_topog %s: num_levels[%d][%d] is %d, not %d" % (" ".join(cmd), j, i, gl[j, i], lev[j, i])
        return None
    S.parallel("make_topog", gen, run, S.secs(25, 120), rule="all kinds of topography on grids of up to 40 x 30 cells, one and two tiles, every option of the realistic kind; every depth and number of levels recomputed")
