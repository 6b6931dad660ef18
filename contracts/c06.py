"""C06: one-dimensional and vertical interpolation"""
import ctypes
import numpy as np
import z3
from fractions import Fraction
from z3 import Implies, If, Or, Not
from .common import *

INT = "lib/libfrencutils/interp.c"
MU = "lib/libfrencutils/mosaic_util.c"
FU = "src/fre-grid/fregrid_util.c"
ASSUMPTIONS = ["pow(x,2) and pow(x,3) are the square and the cube",
               "that the second derivatives computed by cubic_spline are those of the natural or clamped spline is covered by the stand-in (the proof covers that nodes are reproduced for any second derivatives)"]
TRUSTED = ["assumed contract of pow"]


def absv(x):
    return If(x >= 0, x, -x)


def monotone(P, A, n, strict):
    p, q = z3.Int("mp"), z3.Int("mq")
    P.requires(forall([p, q], Implies(And(0 <= p, p < q, q < n), A(p) < A(q) if strict else A(p) <= A(q)), [A(p), A(q)]))


def p_nearest():
    P = Proof(MU, "nearest_index")
    value, arr, ia = P.args
    P.elem(arr, F64)
    P.length(arr, ia)
    A = lambda q: P.pre.at(arr, q)
    no_error_exit(P)
    P.requires(ia >= 1)
    monotone(P, A, ia, False)
    g = P.ghost("q")
    P.requires(0 <= g, g < ia)
    P.loop(0, inv=lambda L: [("i", L["i"] >= 1)])
    near = lambda ix: And(0 <= ix, ix < ia, absv(A(ix) - value) <= absv(A(g) - value))
    P.loop(1, inv=lambda L: [("i", And(0 <= L["i"], L["i"] < ia)), ("passed", Implies(L["keep_going"] != 0, Or(L["i"] == 0, A(L["i"]) < value))),
                             ("found", Implies(L["keep_going"] == 0, near(L["index"])))
                             , ("one", Implies(L["i"] == 0, And(L["keep_going"] != 0, L["index"] == 0)))])
    P.run()
    P.ensures("the result is an index of the array and no element is nearer to the value", near(P.ret))
    return P


def c_nearest(c):
    value, arr, ia = c.args
    c.require("array is not empty", ia >= 1)
    r = fresh("nearest", z3.IntSort())
    q = z3.Int("q")
    A = lambda q: c.at(arr, q, F64)
    p, q2 = z3.Int("np"), z3.Int("nq")
    c.require("array is increasing", forall([p, q2], Implies(And(0 <= p, p < q2, q2 < ia), A(p) <= A(q2)), [A(p), A(q2)]))
    c.assume_all(And(0 <= r, r < ia))
    c.assume_all(forall([q], Implies(And(0 <= q, q < ia), absv(A(r) - value) <= absv(A(q) - value)), [A(q)]))
    c.assume_all(A(r) - value <= absv(A(r) - value))
    # the neighbours (instances of the above)
    for x in (r + 1, r - 1):
        c.assume_all(Implies(And(0 <= x, x < ia), absv(A(r) - value) <= absv(A(x) - value)))
    return r


def p_linear():
    P = Proof(INT, "linear_vertical_interp", contracts={"nearest_index": c_nearest})
    nx, ny, nk1, nk2, g1, g2, d1, d2 = P.args
    for p in (g1, g2, d1, d2):
        P.elem(p, F64)
    N = nx * ny
    P.length(g1, nk1)
    P.length(g2, nk2)
    P.length(d1, N * nk1)
    P.length(d2, N * nk2)
    no_error_exit(P)
    P.requires(nx >= 1, ny >= 1, nk1 >= 1, nk2 >= 1)
    P.lemma_fact("product", Implies(And(nx >= 1, ny >= 1), N >= 1))
    G1, G2 = (lambda q: P.pre.at(g1, q)), (lambda q: P.pre.at(g2, q))
    D1 = lambda k, l: P.pre.at(d1, simp(k * nx * ny + l))
    monotone(P, G1, nk1, True)
    monotone(P, G2, nk2, True)
    P.requires(G1(iv(0)) <= G2(iv(0)), G1(nk1 - 1) >= G2(nk2 - 1))
    k0, l0, m = P.ghost("k"), P.ghost("l"), P.ghost("m")
    P.requires(0 <= k0, k0 < nk2, 0 <= l0, l0 < N)
    one = nk1 == 1
    P.requires(Or(And(one, m == 0), And(0 <= m, m < nk1 - 1, G1(m) <= G2(k0), G2(k0) <= G1(m + 1))))
    z = G2(k0)

    def ok(L):
        v = L.at(d2, simp(k0 * nx * ny + l0))
        lin = v * (G1(m + 1) - G1(m)) == (G1(m + 1) - z) * D1(m, l0) + (z - G1(m)) * D1(m + 1, l0)
        return If(one, v == D1(iv(0), l0), lin)
    for q in (0, 1):
        P.loop(q, inv=lambda L: [("k", L["k"] >= 1)])
    P.loop(2, inv=lambda L: [("k", And(0 <= L["k"], L["k"] <= nk2)), ("done", Implies(k0 < L["k"], ok(L)))])
    inner = lambda L: [("l", And(0 <= L["l"], L["l"] <= N)), ("done", Implies(Or(k0 < L["k"], And(k0 == L["k"], l0 < L["l"])), ok(L)))]
    for q in (3, 4, 5):
        P.loop(q, inv=inner)
    P.run()
    P.ensures("each value is the linear interpolation between the levels around it", ok(P.post))
    return P


def c_pow(c):
    x, e = c.args
    e = simp(e)
    if z3.is_rational_value(e) and e.denominator_as_long() == 1 and e.numerator_as_long() in (2, 3):
        r = x
        for _ in range(e.numerator_as_long() - 1):
            r = r * x
        return r
    return None


def p_spline_nodes(sp):
    """nodes are reproduced, two-point grids are interpolated linearly, no access outside the arrays"""
    def b():
        P = Proof(INT, "cubic_spline_sp" if sp else "cubic_spline", contracts={"nearest_index": c_nearest, "pow": c_pow})
        n1, n2, g1, g2, d1, d2 = P.args[:6]
        for p in (g1, g2, d1, d2):
            P.elem(p, F64)
        for p, n in ((g1, n1), (d1, n1), (g2, n2), (d2, n2)):
            P.length(p, n)
        no_error_exit(P)
        G1, G2 = (lambda q: P.pre.at(g1, q)), (lambda q: P.pre.at(g2, q))
        D1 = lambda q: P.pre.at(d1, q)
        P.requires(n1 >= 2)
        monotone(P, G1, n1, True)
        q = z3.Int("q")
        P.requires(forall([q], Implies(And(0 <= q, q < n2), And(G2(q) >= G1(iv(0)), G2(q) <= G1(n1 - 1))), [G2(q)]))
        k0, m = P.ghost("k"), P.ghost("m")
        P.requires(0 <= k0, k0 < n2, 0 <= m, m < n1, G2(k0) == G1(m))
        two = n1 == 2
        j0 = P.ghost("j")
        P.requires(0 <= j0, j0 < n2)

        def lin(L):
            v = L.at(d2, j0)
            return v * (G1(iv(1)) - G1(iv(0))) == (D1(iv(1)) - D1(iv(0))) * (G2(j0) - G1(iv(0))) + D1(iv(0)) * (G1(iv(1)) - G1(iv(0)))
        node = lambda L: L.at(d2, k0) == D1(m)
        P.spec = (P, n1, n2, g1, g2, d1, d2, G1, G2, D1, k0, m, two, node, lin, j0)
        return P
    return b


def p_spline():
    P = p_spline_nodes(False)()
    P, n1, n2, g1, g2, d1, d2, G1, G2, D1, k0, m, two, node, lin, j0 = P.spec
    P.loop(0, inv=lambda L: [("i", L["i"] >= 1)])
    P.loop(1, inv=lambda L: [("i", L["i"] >= 0)])
    P.loop(2, inv=lambda L: [("i", L["i"] >= 0), ("linear", Implies(j0 < L["i"], lin(L))), ("node", Implies(k0 < L["i"], node(L)))])
    P.loop(3, inv=lambda L: [("i", And(L["i"] >= 1, L["i"] <= n1 - 1)), ("y2", And(L.at(L["y2"], L["i"] - 1, F64) >= -1, L.at(L["y2"], L["i"] - 1, F64) <= 0))])
    P.loop(4, inv=lambda L: [("k", And(L["k"] >= -1, L["k"] <= n1 - 2))])
    P.loop(5, inv=lambda L: [("k", And(L["k"] >= 0, L["k"] <= n2)), ("node", Implies(k0 < L["k"], node(L)))])
    P.eng.divcheck = True
    P.run()
    P.ensures("the data are reproduced at the grid points", node(P.post))
    P.ensures("two points are joined by a straight line", Implies(two, lin(P.post)))
    return P


def p_spline_sp():
    P = p_spline_nodes(True)()
    P, n1, n2, g1, g2, d1, d2, G1, G2, D1, k0, m, two, node, lin, j0 = P.spec
    # the interval of output j0
    e = P.ghost("e")
    P.requires(0 <= e, e < n1 - 1, G1(e) <= G2(j0), G2(j0) <= G1(e + 1))
    at = lambda L, a, x: L.at(L[a], x, F64)
    q = z3.Int("q")

    def diffs(L, hi):
        f = lambda: And(at(L, "dh", q) == G1(q + 1) - G1(q), at(L, "dh", q) > 0, at(L, "delta", q) * at(L, "dh", q) == D1(q + 1) - D1(q))
        return [("differences", forall([q], Implies(And(0 <= q, q < hi), f()), [at(L, "dh", q)])), ("differences2", forall([q], Implies(And(0 <= q, q < hi), f()), [at(L, "delta", q)]))]

    def inside(x, de):
        """slope x lies between 0 and three times the secant"""
        return And(Implies(de >= 0, And(x >= 0, x <= 3 * de)), Implies(de <= 0, And(x <= 0, x >= 3 * de)))

    def slope(L, lo, hi):
        return [("slope at the left end", Implies(And(lo <= e, e < hi), inside(at(L, "d", e), at(L, "delta", e)))), ("slope at the right end", Implies(And(lo <= e + 1, e + 1 < hi), inside(at(L, "d", e + 1), at(L, "delta", e))))]

    def between(L):
        v = L.at(d2, j0)
        return And(Or(v >= D1(e), v >= D1(e + 1)), Or(v <= D1(e), v <= D1(e + 1)))
    P.loop(0, inv=lambda L: [("i", L["i"] >= 1)])
    P.loop(1, inv=lambda L: [("i", L["i"] >= 0)])
    P.loop(2, inv=lambda L: [("i", L["i"] >= 0), ("linear", Implies(j0 < L["i"], lin(L))), ("node", Implies(k0 < L["i"], node(L)))])
    P.loop(3, inv=lambda L: [("k", And(L["k"] >= 0, L["k"] <= n1 - 1))] + diffs(L, L["k"]))
    P.loop(4, inv=lambda L: [("k", And(L["k"] >= 1, L["k"] <= n1 - 1))] + slope(L, 1, L["k"]))

    x, y, h = z3.Reals("lx ly lh")
    div2 = P.lemma("division by a square", [x, y, h], Implies(And(h > 0, y == x / (h * h)), y * h * h == x))
    div1 = P.lemma("division", [x, y, h], Implies(And(h > 0, y == x / h), y * h == x))
    num = {"c": lambda L, q: 3 * at(L, "delta", q) - 2 * at(L, "d", q) - at(L, "d", simp(q + 1)), "b": lambda L, q: at(L, "d", q) - 2 * at(L, "delta", q) + at(L, "d", simp(q + 1))}

    R = z3.RealSort()
    Cubic = z3.Function("Cubic", *[R] * 6, z3.BoolSort())       # a name for the relation between slopes and coefficients
    defined = set()

    def cubic(L, K, define=False):
        t = [at(L, "dh", K), at(L, "d", K), at(L, "d", simp(K + 1)), at(L, "delta", K), at(L, "c", K), at(L, "b", K)]
        if define and not P.eng.dry:
            h, a, b_, D, c_, b3 = t
            f = Cubic(*t) == And(h > 0, c_ * h == 3 * D - 2 * a - b_, b3 * h * h == a - 2 * D + b_)
            if f.get_id() not in defined:
                defined.add(f.get_id())
                P.eng.facts.append(f)
        return Cubic(*t)

    def coef(L, hi):
        if L.st is not L.entry_st:
            K = simp(hi - 1)
            div1(num["c"](L, K), at(L, "c", K), at(L, "dh", K))
            div2(num["b"](L, K), at(L, "b", K), at(L, "dh", K))
            cubic(L, K, True)
        return [("coefficients", forall([q], Implies(And(0 <= q, q < hi), cubic(L, q)), [at(L, "c", q)]))]
    P.loop(5, inv=lambda L: [("k", And(L["k"] >= 0, L["k"] <= n1 - 1))] + slope(L, 0, n1) + coef(L, L["k"]))
    a, b_, D, s, c_, b3 = z3.Reals("ld le lD ls lc lb")
    val = s * (a + s * (c_ + s * b3))
    hyp = [h > 0, c_ * h == 3 * D - 2 * a - b_, b3 * h * h == a - 2 * D + b_]
    up = And(0 <= a, a <= 3 * D, 0 <= b_, b_ <= 3 * D)
    dn = And(0 >= a, a >= 3 * D, 0 >= b_, b_ >= 3 * D)
    vs = [h, a, b_, D, s, c_, b3]
    lemmas = [P.lemma("cubic with limited slopes stays inside (%s)" % n, vs, Implies(And(*hyp, 0 <= s, s <= h, x), y))
              for n, x, y in (("rising, below", up, val >= 0), ("rising, above", up, val <= D * h), ("falling, above", dn, val <= 0), ("falling, below", dn, val >= D * h))]
    lemmas.append(P.lemma("cubic at the ends of its interval", vs, Implies(And(*hyp), And(Implies(s == h, val == D * h), Implies(s == 0, val == 0)))))

    def lem(L):
        if (L.var("klo").name, (), I32) not in L.st.mem or L.st is L.entry_st:
            return []
        g = lambda n, x: at(L, n, x)
        K = L["klo"]
        ss = G2(simp(L["k"] - 1)) - G1(K)
        cubic(L, K, True)
        for l in lemmas:
            l(g("dh", K), g("d", K), g("d", simp(K + 1)), g("delta", K), ss, g("c", K), g("b", K))
        return []
    P.loop(6, inv=lambda L: lem(L) + [("k", And(L["k"] >= 0, L["k"] <= n2)), ("node", Implies(k0 < L["k"], node(L))), ("between", Implies(j0 < L["k"], between(L)))])
    P.run()
    v, ga, gb, z_, ya, yb = z3.Reals("lv lga lgb lz lya lyb")
    chord = P.lemma("a chord stays between its ends", [v, ga, gb, z_, ya, yb], Implies(And(ga < gb, ga <= z_, z_ <= gb, v * (gb - ga) == (yb - ya) * (z_ - ga) + ya * (gb - ga)),
                                                                                   And(Or(v >= ya, v >= yb), Or(v <= ya, v <= yb))))
    chord(P.post.at(d2, j0), G1(iv(0)), G1(iv(1)), G2(j0), D1(iv(0)), D1(iv(1)))
    P.ensures("the data are reproduced at the grid points", node(P.post))
    P.ensures("two points are joined by a straight line", Implies(two, lin(P.post)))
    P.ensures("every value lies between the data at the two ends of its interval (two points)", Implies(two, between(P.post)))
    P.ensures("every value lies between the data at the two ends of its interval", Implies(Not(two), between(P.post)))
    return P


def vgrids(P, vin, vout):
    P.struct(vin, "VGrid_config")
    P.struct(vout, "VGrid_config")
    for p in (vin, vout):
        P.length(p, iv(1))
    f = lambda p, n: P.pre.at(P.field(p, n), None, I32)
    nk1, nk2 = f(vin, "nz"), f(vout, "nz")
    zi, zo = P.fieldptr(vin, "z"), P.fieldptr(vout, "z")
    for z, n in ((zi, nk1), (zo, nk2)):
        P.elem(z, F64)
        P.length(z, n)
        z.region.nullfn = lambda *ix: z3.BoolVal(False)
    P.requires(nk1 >= 1, nk2 >= 1)
    ZI, ZO = (lambda q: P.pre.at(zi, q)), (lambda q: P.pre.at(zo, q))
    monotone(P, ZI, nk1, True)
    monotone(P, ZO, nk2, True)
    return nk1, nk2, ZI, ZO


def p_setup():
    P = Proof(FU, "setup_vertical_interp", contracts={"mpp_pe": lambda c: fresh("pe", z3.IntSort()), "mpp_root_pe": lambda c: fresh("root", z3.IntSort()), "printf": lambda c: None})
    vin, vout = P.args
    nk1, nk2, ZI, ZO = vgrids(P, vin, vout)
    g = P.ghost("level")
    P.requires(0 <= g, g < nk2)
    q = z3.Int("q")
    P.loop(0, inv=lambda L: [("kstart", And(0 <= L["kstart"], L["kstart"] <= nk2)), ("above", forall([q], Implies(And(0 <= q, q < L["kstart"]), ZO(q) < ZI(iv(0))), [ZO(q)]))])
    P.loop(1, inv=lambda L: [("kend", And(-1 <= L["kend"], L["kend"] < nk2)), ("below", forall([q], Implies(And(q < nk2, q > L["kend"]), ZO(q) > ZI(nk1 - 1)), [ZO(q)]))])
    P.loop(2, inv=lambda L: [("k", And(0 <= L["k"], L["k"] <= nk1)), ("same", Implies(g < L["k"], absv(ZO(g) - ZI(g)) <= EPS10))])
    P.run()
    o = lambda n: P.post.at(P.field(vout, n), None, I32)
    ks, ke = o("kstart"), o("kend")
    P.ensures("the levels before kstart are those shallower than the input", (g < ks) == (ZO(g) < ZI(iv(0))))
    P.ensures("the levels after kend are those deeper than the input", (g > ke) == (ZO(g) > ZI(nk1 - 1)))
    P.lemma_fact("a level", Or(ZO(ke + 1) < ZI(iv(0)), ZO(ke + 1) >= ZI(iv(0))))
    P.ensures("kstart and kend", And(0 <= ks, ks <= nk2, -1 <= ke, ke < nk2, ks <= ke + 1))
    P.ensures("no interpolation only between equal vertical grids", Implies(o("need_interp") == 0, And(nk1 == nk2, absv(ZO(g) - ZI(g)) <= EPS10)))
    return P


EPS10 = z3.RealVal(str(Fraction(1e-10)))


def extent(p):
    r = p.region
    if r.length is not None:
        return r.length(*p.idx[: r.nprefix]) if callable(r.length) else r.length
    return (r.bytes(*p.idx[: r.nprefix]) if callable(r.bytes) else r.bytes) / 8


def p_do(same):
    def b():
        spec = {}

        def c_lin(c):
            nx, ny, nk1, nk2, g1, g2, d1, d2 = c.args
            G1, G2 = (lambda q: c.at(g1, q, F64)), (lambda q: c.at(g2, q, F64))
            k0, l0, m = spec["k0"], spec["l0"], spec["m"]
            c.require("sizes", And(nx >= 1, ny >= 1, nk1 >= 1, nk2 >= 1))
            p, q = z3.Int("lp"), z3.Int("lq")
            for nm, G, n in (("source levels increase", G1, nk1), ("target levels increase", G2, nk2)):
                c.require(nm, forall([p, q], Implies(And(0 <= p, p < q, q < n), G(p) < G(q)), [G(p), G(q)]))
            c.require("target levels lie inside", And(G1(iv(0)) <= G2(iv(0)), G1(nk1 - 1) >= G2(nk2 - 1)))
            N = nx * ny
            c.require("data1 holds the input", And(d1.idx[-1] == 0, extent(d1) >= N * nk1))
            off = d2.idx[-1]
            c.require("data2 holds the output", And(off >= 0, extent(d2) >= off + N * nk2))
            # the value of output (k0, l0), k0 counted in the whole output grid (an instance of the contract proved for linear_vertical_interp)
            k = k0 - spec["kstart"]
            v = fresh("interpolated", z3.RealSort())
            D = lambda kk: c.at(d1, simp(kk * nx * ny + l0), F64)
            z = G2(simp(k))
            c.assume(Implies(And(0 <= k, k < nk2), If(nk1 == 1, v == D(iv(0)), Implies(And(0 <= m, m < nk1 - 1, G1(m) <= z, z <= G1(m + 1)),
                     v * (G1(m + 1) - G1(m)) == (G1(m + 1) - z) * D(m) + (z - G1(m)) * D(m + 1)))))
            nb = c.eng.mkbase(freshname("interpolated"), len(d2.idx), F64)
            lo = d2.idx
            cell = simp(off + k * nx * ny + l0)
            c.bulk(d2, F64, lambda *ix: And(*[x == y for x, y in zip(ix[:-1], lo[:-1])], ix[-1] >= off, ix[-1] < off + N * nk2),
                   lambda *ix: If(ix[-1] == cell, v, nb.read(ix)))
        P = Proof(FU, "do_vertical_interp", contracts={"linear_vertical_interp": c_lin})
        vin, vout, gout, field, varid = P.args
        nk1, nk2, ZI, ZO = vgrids(P, vin, vout)
        P.struct(gout, "Grid_config")
        P.struct(field, "Field_config")
        P.length(gout, iv(1))
        P.length(field, iv(1))
        nx, ny = [P.pre.at(P.field(gout, n), None, I32) for n in ("nx", "ny")]
        N = nx * ny
        data = P.fieldptr(field, "data")
        P.elem(data, F64)
        P.length(data, N * nk1)
        var = P.fieldptr(field, "var")
        P.struct(var, "Var_config")
        P.length(var, varid + 1)
        P.requires(varid >= 0, nx >= 1, ny >= 1)
        P.lemma_fact("product", Implies(And(nx >= 1, ny >= 1), N >= 1))
        ks, ke = [P.pre.at(P.field(vout, n), None, I32) for n in ("kstart", "kend")]
        q = z3.Int("q")
        P.requires(0 <= ks, ks <= nk2, -1 <= ke, ke < nk2, ks <= ke + 1)
        P.requires(forall([q], Implies(And(0 <= q, q < nk2), And((q < ks) == (ZO(q) < ZI(iv(0))), (q > ke) == (ZO(q) > ZI(nk1 - 1)))), [ZO(q)]))
        if same:
            P.requires(nk1 == nk2)
        k0, l0, m = P.ghost("k"), P.ghost("l"), P.ghost("m")
        P.requires(0 <= k0, k0 < nk2, 0 <= l0, l0 < N)
        spec.update(k0=k0, l0=l0, m=m, kstart=ks)
        z = ZO(k0)
        D = lambda k: P.pre.at(data, simp(k * nx * ny + l0))
        P.spec = (nk1, nk2, nx, ny, N, data, k0, l0, m, ZI, ZO, D, z, ks, ke, field, vout, var, varid)
        cur = lambda L: L.at(P.field(field, "data"), None, PTR)
        at = lambda L: L.at(cur(L), simp(k0 * nx * ny + l0), F64)
        P.loop(0, inv=lambda L: [("i", And(0 <= L["i"], L["i"] <= N * nk1)), ("copied", forall([q], Implies(And(0 <= q, q < L["i"]), L.at(L["tmp"], q, F64) == P.pre.at(data, q)), [L.at(L["tmp"], q, F64)]))])
        top, bot = D(iv(0)), D(nk1 - 1)
        inn = lambda L, v: [("i", And(0 <= L["i"], L["i"] <= N)), ("done", Implies(Or(L["k"] > k0, And(L["k"] == k0, l0 < L["i"])), at(L) == v))]
        P.loop(1, inv=lambda L: [("k", And(0 <= L["k"], L["k"] <= ks)), ("done", Implies(L["k"] > k0, at(L) == top))])
        P.loop(2, inv=lambda L: inn(L, top))
        P.loop(3, inv=lambda L: [("k", L["k"] <= nk2), ("top", Implies(k0 < ks, at(L) == top)), ("done", Implies(And(k0 > ke, L["k"] > k0), at(L) == bot))])
        P.loop(4, inv=lambda L: [("top", Implies(k0 < ks, at(L) == top)), ("i", And(0 <= L["i"], L["i"] <= N)), ("done", Implies(And(k0 > ke, Or(L["k"] > k0, And(L["k"] == k0, l0 < L["i"]))), at(L) == bot))])
        P.run()
        v = at(P.post)
        active = And(P.pre.at(P.field(vout, "need_interp"), None, I32) != 0, P.pre.at(P.field(Ptr(var.region, var.path, var.idx[:-1] + (varid,)), "has_zaxis"), None, I32) != 0)
        P.ensures("shallower levels get the first input level", Implies(And(active, k0 < ks), v == top))
        P.ensures("deeper levels get the last input level", Implies(And(active, k0 > ke), v == bot))
        P.ensures("levels inside are interpolated linearly", Implies(And(active, ks <= k0, k0 <= ke), If(nk1 == 1, v == top, Implies(And(0 <= m, m < nk1 - 1, ZI(m) <= z, z <= ZI(m + 1)),
                  v * (ZI(m + 1) - ZI(m)) == (ZI(m + 1) - z) * D(m) + (z - ZI(m)) * D(m + 1)))))
        return P
    return b


def proofs(tier):
    return [("nearest_index", p_nearest), ("linear_vertical_interp", p_linear), ("cubic_spline", p_spline), ("shape preserving spline", p_spline_sp),
            ("setup_vertical_interp", p_setup), ("do_vertical_interp", p_do(False))]


def search(S):
    from engine import search as H
    import bisect
    src = [INT, MU, FU, "src/fre-grid/bilinear_interp.c", "src/fre-grid/conserve_interp.c"]
    flags = ("-I" + H.REPO + "/src/fre-grid",)
    rest = [o for f, o in zip(H.LIBC, H.libobjs()) if f not in ("interp.c", "mosaic_util.c")]
    lib = ctypes.CDLL(H.link("libvinterp.so", H.fenced(src, flags) + H.objs(["/verif/harness/vinterp_glue.c"], flags + H.FENCE) + rest, shared=True))
    lib.h_nearest.argtypes = [ctypes.c_double, ctypes.c_void_p, ctypes.c_int]
    arr = lambda x: np.array(x, dtype=np.float64)
    ptr = lambda a: a.ctypes.data_as(ctypes.c_void_p)

    def levels(r, n, lo=None):
        """strictly increasing values"""
        how = r.randrange(4)
        x = r.choice([0.0, -5.0, 1000.0, r.uniform(-10, 10)]) if lo is None else lo
        out = [x]
        for _ in range(n - 1):
            out.append(out[-1] + (r.choice([1.0, 0.5]) if how < 2 else r.choice([1e-3, 1.0, 50.0]) if how == 2 else r.uniform(0.01, 3)))
        return out

    def inside(r, g, n):
        out = []
        for _ in range(n):
            i = r.randrange(len(g))
            out.append(r.choice([g[i], g[0], g[-1], (g[i] + g[max(0, i - 1)]) / 2, r.uniform(g[0], g[-1])]))
        return [min(max(v, g[0]), g[-1]) for v in out]

    def data(r, n):
        how = r.randrange(5)
        if how == 0:
            return [float(r.randint(-2, 2)) for _ in range(n)]
        if how == 1:
            d = [0.0]
            for _ in range(n - 1):
                d.append(d[-1] + r.choice([0.0, 0.0, 1.0, r.uniform(0, 5)]))
            return d if r.random() < .5 else d[::-1]
        if how == 2:
            return [r.uniform(-1e6, 1e6) for _ in range(n)]
        if how == 3:
            return [3.0] * n
        return [r.uniform(-1, 1) for _ in range(n)]

    # nearest index
    def g_near(r, k):
        n = r.choice([1, 2, 3, r.randint(1, 30)])
        a = levels(r, n)
        if n > 2 and r.random() < .2:
            a[1] = a[0]
        v = r.choice([a[r.randrange(n)], a[0] - 1, a[-1] + 1, r.uniform(a[0] - 1, a[-1] + 1), (a[0] + a[-1]) / 2])
        return v, a

    def r_near(c):
        v, a = c
        x = arr(a)
        i = lib.h_nearest(v, ptr(x), len(a))
        if not 0 <= i < len(a):
            return "nearest_index of %g in %s returned %d" % (v, a, i)
        best = min(abs(Fraction(q) - Fraction(v)) for q in a)
        if abs(a[i] - v) > float(best) * (1 + 1e-12) + 1e-300:
            return "nearest_index of %r in %r is %d, but a nearer element exists" % (v, a, i)
    S.parallel("nearest_index", g_near, r_near, S.secs(2), rule="increasing arrays of 1 to 30 elements; values on, between and outside the elements")

    # splines
    def exact_spline(g, d, x, s, e):
        """second derivatives from a dense solve of the continuity equations"""
        n = len(g)
        g, d = arr(g), arr(d)
        h = np.diff(g)
        de = np.diff(d) / h
        A, b = np.zeros((n, n)), np.zeros(n)
        for i in range(1, n - 1):
            A[i, i - 1], A[i, i], A[i, i + 1] = h[i - 1] / 6, (h[i - 1] + h[i]) / 3, h[i] / 6
            b[i] = de[i] - de[i - 1]
        if s > .99e30:
            A[0, 0] = 1
        else:
            A[0, 0], A[0, 1], b[0] = h[0] / 3, h[0] / 6, de[0] - s
        if e > .99e30:
            A[-1, -1] = 1
        else:
            A[-1, -2], A[-1, -1], b[-1] = h[-1] / 6, h[-1] / 3, e - de[-1]
        M = np.linalg.solve(A, b)
        out, mag = [], 0
        for v in x:
            i = min(max(bisect.bisect_right(list(g), v) - 1, 0), n - 2)
            p, q = (g[i + 1] - v) / h[i], (v - g[i]) / h[i]
            out.append(p * d[i] + q * d[i + 1] + ((p ** 3 - p) * M[i] + (q ** 3 - q) * M[i + 1]) * h[i] ** 2 / 6)
            mag = max(mag, abs(M[i]) * h[i] ** 2, abs(M[i + 1]) * h[i] ** 2)
        return out, mag, np.linalg.cond(A)

    def g_sp(r, k):
        n = r.choice([2, 3, 4, r.randint(2, 14)])
        g = levels(r, n)
        x = inside(r, g, r.randint(1, 12)) + ([] if r.random() < .5 else g)
        free = lambda: r.choice([1e30, 1e30, 0.0, r.uniform(-3, 3)])
        return r.randrange(2), g, data(r, n), x, free(), free()

    def r_sp(c):
        sp, g, d, x, s, e = c
        a, b, y, out = arr(g), arr(x), arr(d), np.full(len(x), np.nan)
        lib.h_spline(sp, len(g), len(x), ptr(a), ptr(b), ptr(y), ptr(out), ctypes.c_double(s), ctypes.c_double(e))
        scale = max(map(abs, d)) + 1e-300
        name = "cubic_spline_sp" if sp else "cubic_spline"
        if not sp and len(g) > 2:
            ex, mag, cond = exact_spline(g, d, x, s, e)
            tol = (scale + mag) * (1e-9 + cond * 1e-13)
        else:
            ex, tol = None, scale * 1e-9
        for j, v in enumerate(x):
            i = min(max(bisect.bisect_right(g, v) - 1, 0), len(g) - 2)
            o = out[j]
            if not o == o:
                return "%s: result %d is not a number for %s" % (name, j, c)
            for q in (i, i + 1):
                if v == g[q] and abs(o - d[q]) > tol:
                    return "%s does not reproduce the datum %g at grid point %g (got %.17g) for %s" % (name, d[q], v, o, c)
            lin = d[i] + (d[i + 1] - d[i]) * (v - g[i]) / (g[i + 1] - g[i])
            if len(g) == 2 and abs(o - lin) > tol:
                return "%s of two points is not a straight line at %g for %s" % (name, v, c)
            if sp and not min(d[i], d[i + 1]) - tol <= o <= max(d[i], d[i + 1]) + tol:
                return "%s leaves the range of the neighbouring data at %g: %.17g for %s" % (name, v, o, c)
            if ex is not None and abs(o - ex[j]) > tol:
                return "%s at %g is %.17g, the spline through the data is %.17g for %s" % (name, v, o, ex[j], c)
        if sp:
            for j in range(len(x)):
                for q in range(len(x)):
                    if x[j] < x[q] and all(a <= b for a, b in zip(d, d[1:])) and out[j] > out[q] + 2 * tol:
                        return "%s is not monotone although the data are, between %g and %g for %s" % (name, x[j], x[q], c)
    S.parallel("splines", g_sp, r_sp, S.secs(6), first=[(1, [0., 1, 2], [0., 0, 1], [0.5, 1.5], 1e30, 1e30), (1, [0., 1, 2], [0., 1, 1], [0.5, 1.5], 1e30, 1e30)],
               rule="2 to 14 knots, natural and clamped ends; dense linear solve as oracle; shape preserving spline checked for range and monotonicity")

    def lin1(g, col, v):
        if len(g) == 1 or v <= g[0]:
            return col[0]
        if v >= g[-1]:
            return col[-1]
        i = bisect.bisect_right(g, v) - 1
        w = (v - g[i]) / (g[i + 1] - g[i])
        return (1 - w) * col[i] + w * col[i + 1]

    def g_v(r, k):
        nx, ny = r.randint(1, 3), r.randint(1, 3)
        n1, n2 = r.choice([1, 2, r.randint(1, 9)]), r.choice([1, 2, r.randint(1, 9)])
        g1 = levels(r, n1)
        how = r.randrange(6)
        if how == 0:
            g2 = levels(r, n2, g1[-1] + r.choice([0.0, 0.5]))
        elif how == 1:
            t = levels(r, n2)
            g2 = [v - t[-1] + g1[0] - r.choice([0.0, 0.5]) for v in t]
        elif how == 2:
            g2, n2 = list(g1), n1
        elif how == 3:
            g2 = levels(r, n2, g1[0] - 1.5)
        else:
            g2 = sorted(set(inside(r, g1, n2) + [g1[r.randrange(n1)] + r.uniform(-2, 2)]))
            n2 = len(g2)
        if any(a >= b for a, b in zip(g2, g2[1:])):
            g2, n2 = [g1[0]], 1
        return nx, ny, g1, g2, [r.uniform(-10, 10) for _ in range(nx * ny * n1)], r.choice([1, 1, 1, 0])

    def r_v(c):
        nx, ny, g1, g2, d, zax = c
        n1, n2, N = len(g1), len(g2), nx * ny
        a, b, y = arr(g1), arr(g2), arr(d)
        out, inf = np.full(N * max(n1, n2), np.nan), (ctypes.c_int * 3)()
        lib.h_vertical(nx, ny, n1, n2, ptr(a), ptr(b), ptr(y), zax, ptr(out), inf)
        same = n1 == n2 and all(abs(p - q) <= 1e-10 for p, q in zip(g1, g2))
        if same != (inf[2] == 0):
            return "setup_vertical_interp says need_interp=%d for %s and %s" % (inf[2], g1, g2)
        if same or not zax:
            if list(out[:N * n1]) != d:
                return "data changed without vertical interpolation for %s" % (c,)
            return
        for k in range(n2):
            for l in range(N):
                e = lin1(g1, [d[q * N + l] for q in range(n1)], g2[k])
                if not abs(out[k * N + l] - e) <= 1e-9:
                    return "vertical interpolation from %s to %s: level %d point %d is %.17g, expected %.17g" % (g1, g2, k, l, out[k * N + l], e)
    S.parallel("vertical interpolation", g_v, r_v, S.secs(5), first=[(1, 1, [0., 1.], [5., 6.], [1., 2.], 1), (1, 1, [0., 1.], [-5., -4.], [1., 2.], 1), (2, 1, [0.], [-1., 0., 1.], [1., 2.], 1)],
               rule="1 to 9 levels in and out, output levels above, inside and below the input range")
    S.samples = [{"levels in": [0, 1], "levels out": [5, 6]}]
