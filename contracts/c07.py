"""C07: conservative remapping applies the exchange grid exactly"""
import ctypes
import numpy as np
import z3
from z3 import Implies, If, Or, Not
from .common import *

CI = "src/fre-grid/conserve_interp.c"
ASSUMPTIONS = ["the exchange grid refers to cells of the grids (that it does is property C08)",
               "nxgrid is below 2^31",
               "the limiter of the monotonic option is covered by the stand-in"]
TRUSTED = ["mpp_sum_double, mpp_pe, mpp_root_pe and printf have no effect on the fields"]
TARGET, CHECK, MONO = 16, 1024, 16384
R, Z = z3.RealSort(), z3.IntSort()


def el(p, i):
    return Ptr(p.region, p.path, p.idx[:-1] + (i,))


def setup(P, order, nz, flags0, missing, opcode):
    """common preconditions; returns a namespace of specification terms"""
    class N:
        pass
    s = N()
    a = P.a
    interp, gin, gout, fin, fout = [a[n] for n in ("interp", "grid_in", "grid_out", "field_in", "field_out")]
    ntin, ntout, varid = a["ntiles_in"], a["ntiles_out"], a["varid"]
    for p, t, n in ((interp, "Interp_config", ntout), (gin, "Grid_config", ntin), (gout, "Grid_config", ntout), (fin, "Field_config", ntin), (fout, "Field_config", ntout)):
        P.struct(p, t)
        P.length(p, n)
    P.requires(ntin >= 1, ntout >= 1, varid >= 0)
    fi = lambda t, n: P.mod.fields["struct." + t].index(n)
    I = P.eng.initial
    s.nz = nz
    var = P.fieldptr(el(fin, iv(0)), "var")
    P.struct(var, "Var_config")
    P.length(var, lambda t: varid + 1)
    v = lambda n, ty: P.pre.at(P.field(el(var, varid), n), None, ty)
    const = lambda n, val: I.__setitem__((var.region.name, (("f", fi("Var_config", n)),), I32), Base(lambda *ix: iv(val)))
    const("interp_method", order)
    const("has_missing", missing)
    if flags0:
        const("cell_measures", 0)
        const("cell_methods", 0)
    s.measures, s.methods, s.missing, s.area_missing = v("cell_measures", I32), v("cell_methods", I32), v("missing", F64), v("area_missing", F64)
    s.use_volume = v("use_volume", I32)
    s.MISS = s.missing if missing else z3.RealVal("-100000000000000000000")
    pf = lambda p, name: (lambda t: P.pre.at(P.field(el(p, t), name), None, PTR))
    g = lambda p, name: (lambda t: P.pre.at(P.field(el(p, t), name), None, I32))
    s.nx1, s.ny1, s.nx2, s.ny2 = g(gin, "nx"), g(gin, "ny"), g(gout, "nxc"), g(gout, "nyc")
    s.weight_exist = g(gin, "weight_exist")(iv(0))
    s.nxg = lambda m: P.pre.at(P.field(el(interp, m), "nxgrid"), None, I64)
    h = 1 if order == 2 else 0
    s.N1 = lambda t: s.nx1(t) * s.ny1(t)
    s.N2 = lambda m: s.nx2(m) * s.ny2(m)
    s.NH = lambda t: (s.nx1(t) + 2) * (s.ny1(t) + 2) if h else s.N1(t)

    def arr(p, name, ty, n):
        q = pf(p, name)(iv(0))
        P.elem(q, ty)
        P.length(q, n)
        return lambda t, i: P.pre.at(pf(p, name)(t), i, ty)
    s.i2, s.j2, s.i1, s.j1, s.t = [arr(interp, n, I32, s.nxg) for n in ("i_out", "j_out", "i_in", "j_in", "t_in")]
    s.area = arr(interp, "area", F64, s.nxg)
    s.weight = arr(gin, "weight", F64, s.N1)
    s.cell_area = arr(gin, "cell_area", F64, s.N1)
    s.cell_out = arr(gout, "cell_area", F64, s.N2)
    s.farea = arr(fin, "area", F64, s.N1)
    s.data = arr(fin, "data", F64, lambda t: s.NH(t) * nz)
    if h:
        s.di, s.dj = [arr(interp, n, F64, s.nxg) for n in ("di_in", "dj_in")]
        s.gx, s.gy = [arr(fin, n, F64, lambda t: s.N1(t) * nz) for n in ("grad_x", "grad_y")]
        s.gm = arr(fin, "grad_mask", I32, s.N1)
    s.outp = pf(fout, "data")
    P.elem(s.outp(iv(0)), F64)
    P.length(s.outp(iv(0)), lambda m: s.N2(m) * nz)
    m, n, t = z3.Ints("pm pn pt")
    rec = lambda m, n: And(0 <= m, m < ntout, 0 <= n, n < s.nxg(m))
    P.requires(forall([t], Implies(And(0 <= t, t < ntin), And(s.nx1(t) >= 1, s.ny1(t) >= 1)), [s.nx1(t)]), forall([t], Implies(And(0 <= t, t < ntin), And(s.nx1(t) >= 1, s.ny1(t) >= 1)), [s.ny1(t)]))
    P.requires(forall([m], Implies(And(0 <= m, m < ntout), And(s.nx2(m) >= 1, s.ny2(m) >= 1)), [s.nx2(m)]), forall([m], Implies(And(0 <= m, m < ntout), And(s.nx2(m) >= 1, s.ny2(m) >= 1)), [s.ny2(m)]))
    P.requires(forall([m], Implies(And(0 <= m, m < ntout), And(s.nxg(m) >= 0, s.nxg(m) < 2 ** 31)), [s.nxg(m)]))
    ok2 = lambda m, n: And(0 <= s.i2(m, n), s.i2(m, n) < s.nx2(m), 0 <= s.j2(m, n), s.j2(m, n) < s.ny2(m))
    ok1 = lambda m, n: And(0 <= s.t(m, n), s.t(m, n) < ntin, 0 <= s.i1(m, n), s.i1(m, n) < s.nx1(s.t(m, n)), 0 <= s.j1(m, n), s.j1(m, n) < s.ny1(s.t(m, n)))
    for f, trig in ((ok2, s.i2), (ok2, s.j2), (ok1, s.i1), (ok1, s.j1), (ok1, s.t)):
        P.requires(forall([m, n], Implies(rec(m, n), f(m, n)), [trig(m, n)]))
    # flattened indices
    x, y, X, Y, k = z3.Ints("lx ly lX lY lk")
    flat = lambda x, y, X, Y: Implies(And(0 <= x, x < X, 0 <= y, y < Y), And(y * X + x >= 0, y * X + x < X * Y))
    P.lemma("flattened index", [x, y, X, Y], flat(x, y, X, Y))
    fact = P.eng.facts.append
    fact(forall([m, n], Implies(rec(m, n), flat(s.i2(m, n), s.j2(m, n), s.nx2(m), s.ny2(m))), [s.j2(m, n)]))
    fl1 = lambda m, n: flat(s.i1(m, n), s.j1(m, n), s.nx1(s.t(m, n)), s.ny1(s.t(m, n)))
    fact(forall([m, n], Implies(rec(m, n), fl1(m, n)), [s.j1(m, n)]))
    if h:
        flh = lambda m, n: flat(s.i1(m, n) + 1, s.j1(m, n) + 1, s.nx1(s.t(m, n)) + 2, s.ny1(s.t(m, n)) + 2)
        fact(forall([m, n], Implies(rec(m, n), flh(m, n)), [s.j1(m, n)]))
    s.c1 = lambda m, n: s.j1(m, n) * s.nx1(s.t(m, n)) + s.i1(m, n)
    s.ch = (lambda m, n: (s.j1(m, n) + 1) * (s.nx1(s.t(m, n)) + 2) + s.i1(m, n) + 1) if h else s.c1
    s.c2 = lambda m, n: s.j2(m, n) * s.nx2(m) + s.i2(m, n)
    # ghost output cell
    s.m0, s.c0, s.k0 = P.ghost("tile"), P.ghost("cell"), (P.ghost("level") if z3.is_expr(nz) else iv(0))
    P.requires(0 <= s.m0, s.m0 < ntout, 0 <= s.c0, s.c0 < s.N2(s.m0), 0 <= s.k0, s.k0 < nz)
    s.idx = simp(s.k0 * s.N2(s.m0) + s.c0) if z3.is_expr(nz) else s.c0
    if z3.is_expr(nz):
        A, N_ = z3.Ints("lA lN")
        layer = lambda k, A, N_: Implies(And(0 <= k, k < nz, 0 <= A, A < N_), And(k * N_ + A >= 0, k * N_ + A < N_ * nz))
        P.lemma("index with level", [k, A, N_], layer(k, A, N_))
        k2, B = z3.Ints("lk2 lB")
        s.uniq = P.lemma("index with level is unique", [k, k2, A, B, N_], Implies(And(0 <= A, A < N_, 0 <= B, B < N_, k * N_ + A == k2 * N_ + B), And(k == k2, A == B)))
        s.layer = P.lemma("index with level (2)", [k, A, N_], layer(k, A, N_))
        s.layer(s.k0, s.c0, s.N2(s.m0))
        s.rem = P.lemma("cell of an index with level", [k, A, N_], Implies(And(0 <= k, 0 <= A, A < N_), (k * N_ + A) % N_ == A))
    P.requires(Or(iv(nz) == 1 if not z3.is_expr(nz) else nz == 1, And(s.measures == 0, s.methods != 1)))
    P.requires(Implies(s.measures != 0, s.methods != 99))
    # contribution of exchange cell n to the ghost cell
    m0, k0 = s.m0, s.k0

    def a0(n):
        t = s.t(m0, n)
        return If(s.weight_exist != 0, s.area(m0, n) * s.weight(t, simp(s.c1(m0, n))), s.area(m0, n))

    def aa(n):
        t, c = s.t(m0, n), simp(s.c1(m0, n))
        return If(s.methods == 1, a0(n) / s.cell_area(t, c), If(s.measures != 0, a0(n) * (s.farea(t, c) / s.cell_area(t, c)), a0(n)))

    def val(n):
        t, c = s.t(m0, n), s.c1(m0, n)
        kk = lambda N: k0 * N if z3.is_expr(nz) else iv(0)
        d = s.data(t, simp(kk(s.NH(t)) + s.ch(m0, n)))
        if not h:
            return d
        q = simp(kk(s.N1(t)) + c)
        lin = d + s.gx(t, q) * s.di(m0, n) + s.gy(t, q) * s.dj(m0, n)
        return If(s.gm(t, simp(c)) != 0, d, lin) if missing else lin
    s.a0, s.aa, s.val = a0, aa, val
    s.base = lambda n: s.data(s.t(m0, n), simp((k0 * s.NH(s.t(m0, n)) if z3.is_expr(nz) else iv(0)) + s.ch(m0, n)))
    s.hit = lambda n: And(s.c2(m0, n) == s.c0, s.base(n) != s.MISS if missing else z3.BoolVal(True))
    s.S, s.A, s.M, s.T = [z3.Function(x, Z, r) for x, r in (("SumValue", R), ("SumArea", R), ("Hit", Z), ("SumCover", R))]
    for f in (s.S, s.A, s.M, s.T):
        P.requires(f(iv(0)) == 0)
    defined = set()

    def unfold(n):
        """definitions of the sums at record n"""
        n = simp(n)
        if P.eng.dry or n.get_id() in defined:
            return
        defined.add(n.get_id())
        t, c = s.t(m0, n), simp(s.c1(m0, n))
        cover = If(s.measures != 0, s.area(m0, n) * s.farea(t, c) / s.cell_area(t, c), s.area(m0, n))
        n1 = simp(n + 1)
        fact(Implies(n >= 0, And(s.S(n1) == s.S(n) + If(s.hit(n), val(n) * aa(n), 0), s.A(n1) == s.A(n) + If(s.hit(n), aa(n), 0),
                                 s.M(n1) == If(s.hit(n), 1, s.M(n)), s.T(n1) == s.T(n) + If(s.c2(m0, n) == s.c0, cover, 0))))
    s.unfold = unfold
    if missing:
        P.requires(forall([m, n], Implies(And(rec(m, n), s.measures != 0, s.data(s.t(m, n), simp(s.ch(m, n))) != s.MISS), s.farea(s.t(m, n), simp(s.c1(m, n))) != s.area_missing), [s.t(m, n)]))
    return s


def p_scalar(order, missing, many, opcode):
    def b():
        none = lambda c: None
        P = Proof(CI, "do_scalar_conserve_interp", contracts={"mpp_pe": lambda c: fresh("pe", Z), "mpp_root_pe": lambda c: fresh("pe", Z), "mpp_sum_double": none, "printf": none,
                                                              "mpp_error": lambda c: c.require("no error exit for valid input", z3.BoolVal(False))})
        names = list(P.a)
        P.args[names.index("opcode")] = P.a["opcode"] = iv(opcode)
        nz = P.a["nz"] if many else 1
        if many:
            P.requires(nz >= 1)
        else:
            P.args[names.index("nz")] = P.a["nz"] = iv(1)
        s = setup(P, order, nz, many, missing, opcode)
        P.eng.dryprune = True
        m0 = s.m0
        at = lambda L: L.at(s.outp(m0), s.idx, F64)
        loc = lambda L, x, ty: L.at(L[x], s.idx, ty)
        n_ = lambda: s.nxg(m0)
        NM = simp(n_())
        Sn, An, Mn, Tn = s.S(NM), s.A(NM), s.M(NM), s.T(NM)
        plain = lambda: If(An > 0, Sn / An, If(Mn == 1, z3.RealVal(0), s.MISS))
        tgt = And(s.use_volume == 0) if opcode & TARGET else z3.BoolVal(False)
        scaled = lambda: If(And(tgt, plain() != s.MISS), plain() * (Tn / s.cell_out(m0, s.c0)), plain())
        final = lambda: If(s.methods == 1, If(An == 0, If(Mn == 0, s.MISS, z3.RealVal(0)), Sn), scaled())
        s.final, s.plain = final, plain
        keep = lambda L: [("m", And(0 <= L["m"], L["m"] < P.a["ntiles_out"])), ("finished tile", Implies(L["m"] > m0, at(L) == final()))]
        here = lambda L, f: Implies(L["m"] == m0, f)
        i0 = s.idx

        def sums(L, n):
            return And(at(L) == s.S(n), loc(L, "out_area", F64) == s.A(n), loc(L, "out_miss", I32) == s.M(n))

        def inv_m(L):
            s.unfold(iv(0))
            return [("m", And(0 <= L["m"], L["m"] <= P.a["ntiles_out"])), ("finished tile", Implies(L["m"] > m0, at(L) == final()))]

        def inv_zero(L):
            return keep(L) + [("i", L["i"] >= 0), ("zero", here(L, Implies(i0 < L["i"], And(at(L) == 0, loc(L, "out_area", F64) == 0, loc(L, "out_miss", I32) == 0))))]

        def inv_n(L):
            n = L["n"]
            s.unfold(n)
            s.unfold(simp(n - 1))
            return keep(L) + [("n", n >= 0), ("n2", n <= s.nxg(L["m"])), ("sums", here(L, sums(L, n)))]

        def inv_k(L):
            n, k = L["n"], L["k"]
            s.unfold(n)
            if many:
                for kk in (k, simp(k - 1)):
                    s.uniq(kk, s.k0, s.c2(m0, n), s.c0, s.N2(m0))
                    s.layer(kk, simp(L["j2"] * L["nx2"] + L["i2"]), simp(L["nx2"] * L["ny2"]))
                    s.layer(kk, simp(L["j1"] * L["nx1"] + L["i1"]), simp(L["nx1"] * L["ny1"]))
                    if order == 2:
                        s.layer(kk, simp((L["j1"] + 1) * (L["nx1"] + 2) + L["i1"] + 1), simp((L["nx1"] + 2) * (L["ny1"] + 2)))
            m = L["m"]
            rd = And(L["i2"] == s.i2(m, n), L["j2"] == s.j2(m, n), L["i1"] == s.i1(m, n), L["j1"] == s.j1(m, n), L["tile"] == s.t(m, n), L["nx1"] == s.nx1(s.t(m, n)), L["ny1"] == s.ny1(s.t(m, n)))
            if order == 2:
                rd = And(rd, L["di"] == s.di(m, n), L["dj"] == s.dj(m, n))
            return keep(L) + [("n", And(n >= 0, n < s.nxg(m))), ("k", And(k >= 0, k <= nz)), ("record", rd),
                              ("area", here(L, L["area"] == If(k == 0, s.a0(n), s.aa(n)))),
                              ("sums", here(L, If(k > s.k0, sums(L, simp(n + 1)), sums(L, n))))]

        def inv_end(phase):
            def f(L):
                d = And(loc(L, "out_area", F64) == An, loc(L, "out_miss", I32) == Mn)
                return keep(L) + [("i", L["i"] >= 0), ("areas", here(L, d)), ("value", here(L, If(L["i"] > i0, at(L) == phase(), at(L) == Sn)))]
            return f

        def inv_summiss(L):
            d = And(loc(L, "out_area", F64) == An, loc(L, "out_miss", I32) == Mn)
            return keep(L) + [("i", And(L["i"] >= 0, L["i"] < s.N2(L["m"]))), ("k", And(L["k"] >= 0, L["k"] <= nz)), ("areas", here(L, d)),
                              ("value", here(L, If(Or(L["i"] > i0, And(L["i"] == i0, L["k"] > 0)), at(L) == final(), at(L) == Sn)))]

        def inv_tzero(L):
            return keep(L) + [("i", L["i"] >= 0), ("zero", here(L, Implies(s.c0 < L["i"], L.at(L["out_area"], s.c0, F64) == 0))), ("value", here(L, at(L) == plain()))]

        def inv_tn(L):
            n = L["n"]
            s.unfold(n)
            s.unfold(simp(n - 1))
            return keep(L) + [("n", And(n >= 0, n <= s.nxg(L["m"]))), ("cover", here(L, L.at(L["out_area"], s.c0, F64) == s.T(n))), ("value", here(L, at(L) == plain()))]

        def inv_tend(L):
            if many:
                s.rem(s.k0, s.c0, s.N2(m0))
            return keep(L) + [("i", L["i"] >= 0), ("cover", here(L, L.at(L["out_area"], s.c0, F64) == Tn)), ("value", here(L, at(L) == If(L["i"] > i0, scaled(), plain())))]

        def inv_gs(L):
            return keep(L) + [("i", L["i"] >= 0), ("sums", here(L, sums(L, NM)))]
        inv_chk = lambda L: [("value", at(L) == final())]
        seq = [inv_m, inv_zero, inv_n]
        if not missing:
            seq.append(inv_k)
        if opcode & CHECK:
            seq.append(inv_gs)
        if not many:
            seq += [inv_end(final), inv_summiss, inv_summiss]
        seq.append(inv_end(plain))
        if opcode & TARGET:
            seq += [inv_tzero, inv_tn, inv_tend]
        for q, f in enumerate(seq):
            P.loop(q, inv=f)
        if opcode & CHECK:
            P.loop_default(inv_chk)
            P.eng.bounds = False
        P.run()
        Sv, Av, v, a, c, lo, hi, gi = z3.Reals("cS cA cv ca cc clo chi cgi")
        P.lemma("a constant field stays constant (induction step)", [Sv, Av, a, c], Implies(Sv == c * Av, Sv + c * a == c * (Av + a)))
        P.lemma("a mean of a constant is the constant", [Sv, Av, c], Implies(And(Sv == c * Av, Av > 0), Sv / Av == c))
        P.lemma("the mean stays within the range of the data (induction step)", [Sv, Av, v, a, lo, hi], Implies(And(lo * Av <= Sv, Sv <= hi * Av, a >= 0, lo <= v, v <= hi), And(lo * (Av + a) <= Sv + v * a, Sv + v * a <= hi * (Av + a))))
        P.lemma("the mean stays within the range of the data", [Sv, Av, lo, hi], Implies(And(lo * Av <= Sv, Sv <= hi * Av, Av > 0), And(lo <= Sv / Av, Sv / Av <= hi)))
        P.lemma("mean times covered area is the integral", [Sv, Av], Implies(Av > 0, (Sv / Av) * Av == Sv))
        P.ensures("each output value is the area-weighted mean (or sum) of its exchange cells", at(P.post) == final())
        return P
    return b


def proofs(tier):
    L = []
    for order in (1, 2):
        for missing, many in ((1, 0), (0, 0), (0, 1)):
            for op in (0, TARGET):
                L.append(("order %d%s%s%s" % (order, ", missing values" if missing else "", ", levels" if many else "", ", target" if op else ""), p_scalar(order, missing, many, op)))
    return L


def search(S):
    from engine import search as H
    flags = ("-I" + H.REPO + "/src/fre-grid",)
    lib = ctypes.CDLL(H.link("libconserve.so", H.fenced([CI], flags) + H.objs(["/verif/harness/conserve_glue.c"], flags + H.FENCE) + list(H.libobjs()), shared=True))
    ints = lambda x: np.array(x, dtype=np.int32)
    dbl = lambda x: np.array(x, dtype=np.float64)
    ptr = lambda a: a.ctypes.data_as(ctypes.c_void_p)

    def gen(r, k):
        order, mono = r.choice([(1, 0), (1, 0), (2, 0), (2, 0), (2, 1), (2, 1)])
        hm = r.randrange(2)
        nz = 1 if hm or mono or r.random() < .6 else r.randint(2, 3)
        measures, methods = r.choice([(0, 0), (0, 0), (1, 0), (0, 1)]) if nz == 1 else (0, 0)
        si = [(r.randint(1, 4), r.randint(1, 4)) for _ in range(r.randint(1, 3))]
        so = [(r.randint(1, 3), r.randint(1, 3)) for _ in range(r.randint(1, 2))]
        recs = []
        for nx, ny in so:
            L = []
            for _ in range(r.choice([0, 1, r.randint(0, 4 * nx * ny)])):
                t = r.randrange(len(si))
                L.append((r.randrange(si[t][0]), r.randrange(si[t][1]), r.randrange(nx), r.randrange(ny), t, r.choice([r.uniform(.1, 1), 0.0 if r.random() < .1 else .5]), r.uniform(-.5, .5), r.uniform(-.5, .5)))
            recs.append(L)
        miss = r.choice([-1e20, -999.0, 0.0])
        big = r.choice([1.0, 1.0, 10.0, 1e9 if mono else 3.0])
        pm = r.choice([0, .2, .6, 1]) if hm else 0
        const = r.random() < .1
        D, GX, GY, GM, W, CA, FA = [], [], [], [], [], [], []
        wz = r.random() < .2
        for nx, ny in si:
            N, NH = nx * ny, (nx + 2) * (ny + 2) if order == 2 else nx * ny
            D.append([miss if r.random() < pm else 2.5 if const else r.choice([r.uniform(-big, big), r.uniform(big, 2 * big)]) for _ in range(NH * nz)])
            GX.append([r.uniform(-3 * big, 3 * big) for _ in range(N * nz)])
            GY.append([r.choice([0, r.uniform(-big, big)]) for _ in range(N * nz)])
            GM.append([int(r.random() < .3) if hm else 0 for _ in range(N * nz)])
            W.append([0.0 if wz else r.uniform(.1, 2) for _ in range(N)])
            CA.append([r.uniform(.5, 3) for _ in range(N)])
            FA.append([r.uniform(.5, 3) for _ in range(N)])
        CO = [[r.uniform(.5, 3) for _ in range(nx * ny)] for nx, ny in so]
        op = (MONO if mono else 0) | r.choice([0, TARGET]) | (CHECK if r.random() < .2 else 0)
        return (order, nz, hm, measures, methods, int(r.random() < .3), r.randrange(2), op), (miss, -1.0), si, so, recs, D, GX, GY, GM, W, CA, FA, CO

    cat = lambda L: dbl([x for q in L for x in q] + [0.0])

    def call(c):
        f, d, si, so, recs, D, GX, GY, GM, W, CA, FA, CO = c
        allr = [x for L in recs for x in L]
        col = lambda i: [x[i] for x in allr]
        rec = ints(sum((col(i) for i in (0, 1, 2, 3, 4)), []) + [0])
        rd = dbl(sum((col(i) for i in (5, 6, 7)), []) + [0])
        out = np.full(sum(x * y for x, y in so) * f[1], np.nan)
        A = [ints(f), dbl(d), ints(sum(map(list, si), [])), ints(sum(map(list, so), [])), ints([len(L) for L in recs]), cat(D), cat(GX), cat(GY), ints([x for q in GM for x in q]), cat(W), cat(CA), cat(FA), cat(CO)]
        lib.h_conserve(ptr(A[0]), ptr(A[1]), len(si), ptr(A[2]), len(so), ptr(A[3]), ptr(A[4]), ptr(rec), ptr(rd), *[ptr(x) for x in A[5:]], ptr(out))
        return out

    def oracle(c):
        f, d, si, so, recs, D, GX, GY, GM, W, CA, FA, CO = c
        order, nz, hm, measures, methods, vol, we, op = f
        miss = d[0] if hm else -1e20
        out, tol = [], []
        for m, (nx2, ny2) in enumerate(so):
            for k in range(nz):
                vals = []
                lim = {}
                for (i1, j1, i2, j2, t, a, di, dj) in recs[m]:
                    nx, ny = si[t]
                    c1 = j1 * nx + i1
                    if order == 1:
                        b = D[t][k * nx * ny + c1]
                    else:
                        b = D[t][k * (nx + 2) * (ny + 2) + (j1 + 1) * (nx + 2) + i1 + 1]
                    x = b
                    if order == 2 and not ((hm or op & MONO) and GM[t][c1]):
                        x = b + GX[t][k * nx * ny + c1] * di + GY[t][k * nx * ny + c1] * dj
                    vals.append((b, x))
                    if op & MONO and b != miss:
                        lim.setdefault((t, c1), []).append(x)
                if op & MONO:
                    for q, (b, x) in enumerate(vals):
                        i1, j1, _, _, t = recs[m][q][:5]
                        nx, ny = si[t]
                        if b == miss:
                            continue
                        nb = [D[t][(j1 + 1 + jj) * (nx + 2) + i1 + 1 + ii] for jj in (-1, 0, 1) for ii in (-1, 0, 1)]
                        nb = [v for v in nb if v != miss]
                        hi, lo = max(nb), min(nb)
                        xs = lim[(t, j1 * nx + i1)]
                        al = 1.0
                        if max(xs) > hi:
                            al = min(al, (hi - b) / (max(xs) - b))
                        if min(xs) < lo:
                            al = min(al, (lo - b) / (min(xs) - b))
                        vals[q] = (b, b + al * (x - b))
                for cell in range(nx2 * ny2):
                    s = a = T = sa = 0.0
                    hit = False
                    for (i1, j1, i2, j2, t, ar, di, dj), (b, x) in zip(recs[m], vals):
                        if j2 * nx2 + i2 != cell:
                            continue
                        c1 = j1 * si[t][0] + i1
                        T += ar * FA[t][c1] / CA[t][c1] if measures else ar
                        if hm and b == miss:
                            continue
                        w = ar * (W[t][c1] if we else 1)
                        if methods == 1:
                            w /= CA[t][c1]
                        elif measures:
                            w *= FA[t][c1] / CA[t][c1]
                        s += w * x
                        sa += w * abs(x)
                        a += w
                        hit = True
                    if methods == 1:
                        v = s if hit and a != 0 else 0.0 if hit else miss
                        q = sa
                    else:
                        v = s / a if a > 0 else 0.0 if hit else miss
                        q = sa / a if a > 0 else 0
                        if op & TARGET and not vol and v != miss:
                            v *= T / CO[m][cell]
                            q *= T / CO[m][cell]
                    out.append(v)
                    tol.append(q * 1e-11 + 1e-13)
        return out, tol

    def run(c):
        out = call(c)
        e, tol = oracle(c)
        for i, (x, y, t) in enumerate(zip(out, e, tol)):
            if not abs(x - y) <= t:
                return "output value %d is %.17g, the exchange grid gives %.17g for %s" % (i, x, y, c)
    two = ((2, 1, 0, 0, 0, 0, 0, MONO), (-1e20, -1.0), [(1, 1)], [(2, 1)], [[(0, 0, 0, 0, 0, .5, -.5, 0.0), (0, 0, 1, 0, 0, .5, .5, 0.0)]],
           [[0.0, 1, 0, 0, .5, 1, 0, 0, 1]], [[10.0]], [[0.0]], [[0]], [[1.0]], [[1.0]], [[1.0]], [[1.0, 1.0]])
    S.parallel("conservative remapping", gen, run, S.secs(10, 120), first=[two], rule="1 to 3 input tiles of different size, 1 to 2 output tiles, 0 to 36 exchange cells; both orders, the monotonic limiter, missing values, weights, cell measures, sums, target scaling and levels")
    S.samples = [{"tiles in": [[2, 1], [3, 2]], "tiles out": [[2, 2]], "order": 2}]
