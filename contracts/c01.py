"""C01: domain decomposition tiles the grid exactly once"""
import ctypes
import z3
from z3 import Implies, If, Or, Not
from .common import *

ASSUMPTIONS = [
    "ceil((imax-is+1.0)/(ndmax-ndiv)) is the exact ceiling of the integer quotient (true in double precision for operands below 2^52)",
]


def p_extent():
    P = Proof(DOM, "mpp_compute_extent")
    npts, nd, ib, ie = P.args
    P.requires(nd >= 1, npts >= nd)
    P.length(ib, nd)
    P.length(ie, nd)
    P.elem(ib, I32)
    P.elem(ie, I32)
    no_error_exit(P)
    extent_loop(P, npts, nd, ib, ie)
    P.run()
    extent_post(P, npts, nd, ib, ie)
    return P


def extent_loop(P, npts, nd, ib, ie, start="is", bounds=True):
    j = z3.Int('j')
    sym = Or(nd % 2 == npts % 2, And(nd % 2 == 1, npts % 2 == 0, nd < npts / 2))
    h = (nd - 1) / 2 + 1
    ieg = npts - 1
    # what one block from each end leaves for the rest (the size of a block is ceildiv(a, b))
    a, b, q = z3.Ints("la lb lq")
    isq = lambda q: And((q - 1) * b < a, a <= q * b)
    one = lambda q: Implies(And(b >= 2, a >= b, (a - b) % 2 == 0, isq(q)), a - 2 * q >= b - 2)
    two = lambda q: Implies(And(b >= 2, b % 2 == 1, a % 2 == 0, a >= 2 * b, isq(q)), a - 2 * q >= 2 * (b - 2))
    P.lemma("rest after two blocks", [a, b, q], one(q))
    P.lemma("rest after two blocks, twice as many points", [a, b, q], two(q))
    cd = z3.Function("ceildiv", z3.IntSort(), z3.IntSort(), z3.IntSort())(a, b)
    P.eng.facts.append(forall([a, b], And(one(cd), two(cd)), [cd]))

    def inv(L):
        d = L['ndiv']
        s = L[start]
        B = lambda x: L.at(ib, x)
        E = lambda x: L.at(ie, x)
        imax, ndmax = L['imax'], L['ndmax']
        return [
            ("flag", Implies(d >= (0 if bounds else 1), (L['symmetrize'] != 0) == sym)),
            ("range", And(d >= 0, d <= nd, *([L['isg'] == 0, L['ieg'] == ieg] if bounds else []))),
            ("first", If(d == 0, s == 0, And(B(0) == 0, E(d - 1) == s - 1))),
            ("contig", forall([j], Implies(And(0 <= j, j + 1 < d), B(j + 1) == E(j) + 1), [E(j)])),
            ("contig2", forall([j], Implies(And(0 < j, j < d), B(j) == E(j - 1) + 1), [B(j)])),
            ("nonempty", forall([j], Implies(And(0 <= j, j < d), E(j) >= B(j)), [E(j), B(j)])),
            ("rest-size", Implies(And(sym, d >= 1, Or(d < h, And(d == h, nd % 2 == 0))), npts - 2 * s >= nd - 2 * d)),
            ("rest-size2", Implies(And(sym, d >= 1, Or(d < h, And(d == h, nd % 2 == 0)), nd % 2 != npts % 2), npts - 2 * s >= 2 * (nd - 2 * d))),
            ("rest-nd", Implies(And(sym, d >= 1, Or(d < h, And(d == h, nd % 2 == 0))), ndmax == nd - d)),
            ("rest-sym", Implies(And(sym, d >= 1, Or(d < h, And(d == h, nd % 2 == 0))), imax == ieg - s)),
            ("meet", Implies(And(sym, nd % 2 == 0, d == h), npts == 2 * s)),
            ("mirrorB", Implies(sym, forall([j], Implies(And(j >= h, j >= nd - d, j < nd), B(j) == ieg - E(nd - 1 - j)), [B(j)]))),
            ("mirrorE", Implies(sym, forall([j], Implies(And(j >= h, j >= nd - d, j < nd), E(j) == ieg - B(nd - 1 - j)), [E(j)]))),
            ("rest-mid", Implies(And(sym, d >= h, nd % 2 == 1), s >= 1)),
            ("mid", Implies(And(sym, d == h, nd % 2 == 1), And(s - 1 == ieg - B(d - 1), E(d - 1) == ieg - B(d - 1)))),
            ("midmirror", Implies(And(sym, d >= h, nd % 2 == 1), E(h - 1) == ieg - B(h - 1))),
            ("rest-asym", Implies(And(Not(sym), d >= 1), And(imax == ieg, ndmax == nd, npts - s >= nd - d))),
            ("last", Implies(d == nd, E(d - 1) == ieg)),
        ]

    P.loop(0, inv=inv)


def extent_post(P, npts, nd, ib, ie):
    B = lambda x: P.post.at(ib, x)
    E = lambda x: P.post.at(ie, x)
    k = P.ghost('k')
    P.ensures("first block starts at the first point", B(0) == 0)
    P.ensures("last block ends at the last point", E(nd - 1) == npts - 1)
    P.ensures("blocks are contiguous and ordered", Implies(And(0 <= k, k < nd - 1), B(k + 1) == E(k) + 1))
    P.ensures("no block is empty", Implies(And(0 <= k, k < nd), E(k) >= B(k)))
    P.ensures("mirror symmetry for equal parity",
              Implies(And(nd % 2 == npts % 2, 0 <= k, k < nd), E(k) - B(k) == E(nd - 1 - k) - B(nd - 1 - k)))
    # lemmas: contiguity gives existence and uniqueness of the owner of every point (induction steps)
    b, e = z3.Function("Lb", z3.IntSort(), z3.IntSort()), z3.Function("Le", z3.IntSort(), z3.IntSort())
    m, x, kk = z3.Ints("m x kk")
    from engine.prove import Obligation
    part = And(e(m + 1) >= b(m + 1), b(m + 1) == e(m) + 1, e(m) >= b(m))
    P.eng.obls.append(Obligation("lemma ordering (induction step)", (0, ()),
                                 Implies(And(part, Implies(kk < m, e(kk) < b(m)), kk < m + 1, e(kk) >= b(kk)), e(kk) < b(m + 1)), P.func, 0, "lemma"))
    w = z3.Int("w")
    P.eng.obls.append(Obligation("lemma coverage (induction step)", (0, ()),
                                 Implies(And(part, x >= 0, x <= e(m + 1), Implies(x <= e(m), And(0 <= w, w <= m, b(w) <= x, x <= e(w)))),
                                         Or(And(0 <= w, w <= m + 1, b(w) <= x, x <= e(w)), And(b(m + 1) <= x, x <= e(m + 1)))), P.func, 0, "lemma"))


def p_layout():
    P = Proof(DOM, "mpp_define_layout")
    ni, nj, nd, lay = P.args
    P.requires(nd >= 1)
    P.length(lay, 2)
    no_error_exit(P)
    P.loop(0, inv=lambda L: [("divisor stays positive", L['idiv'] >= 1)], dec=lambda L: L['idiv'])
    P.run()
    l0, l1 = P.post.at(lay, 0), P.post.at(lay, 1)
    P.ensures("layout has exactly ndivs processors", l0 * l1 == nd)
    P.ensures("layout is positive", And(l0 >= 1, l1 >= 1))
    return P


def setup_pe(P):
    pe = P.pre.at(P.globalptr("pe"), None, I32)
    npes = P.pre.at(P.globalptr("npes"), None, I32)
    P.requires(npes >= 1, 0 <= pe, pe < npes)
    return pe, npes


def p_1d():
    P = Proof(DOM, "mpp_define_domain_1d", contracts={"mpp_compute_extent": c_compute_extent})
    npts, nd, dom = P.args
    P.struct(dom, "domain1D")
    pe, npes = setup_pe(P)
    P.requires(nd >= 1, npts >= nd)
    no_error_exit(P)
    P.run()
    bl, el = P.post.at(P.field(dom, "beglist"), None, PTR), P.post.at(P.field(dom, "endlist"), None, PTR)
    (n0, d0, B, E), = P.eng.extents
    k = P.ghost('k')
    rng = And(0 <= k, k < nd)
    P.ensures("lists hold the decomposition", Implies(rng, And(P.post.at(bl, k, I32) == B(k), P.post.at(el, k, I32) == E(k), n0 == npts, d0 == nd)))
    f = lambda n: P.post.at(P.field(dom, n), None, I32)
    P.ensures("own extent", Implies(npes == nd, And(f("start") == B(pe), f("end") == E(pe), f("size") == E(pe) - B(pe) + 1, f("sizeg") == npts)))
    return P


def p_2d():
    P = Proof(DOM, "mpp_define_domain2d", contracts={"mpp_compute_extent": c_compute_extent})
    ni, nj, lay, xh, yh, dom = P.args
    P.struct(dom, "domain2D")
    P.elem(lay, I32)
    P.length(lay, 2)
    pe, npes = setup_pe(P)
    lx, ly = P.pre.at(lay, 0, I32), P.pre.at(lay, 1, I32)
    P.requires(lx >= 1, ly >= 1, lx <= ni, ly <= nj, npes == lx * ly)
    no_error_exit(P)
    i0, j0 = P.ghost('i'), P.ghost('j')
    P.requires(0 <= i0, i0 < lx, 0 <= j0, j0 < ly)
    cell = j0 * lx + i0
    # arithmetic facts about row-major positions (valid; proved as lemmas)
    names = ("isclist", "ieclist", "jsclist", "jeclist")

    def exts():
        (_, _, Bx, Ex), (_, _, By, Ey) = P.eng.extents[:2]
        return Bx, Ex, By, Ey

    def vals(L):
        return [L.at(L.at(P.field(dom, n), None, PTR), cell, I32) for n in names]

    def want():
        Bx, Ex, By, Ey = exts()
        return [Bx(i0) + xh, Ex(i0) + xh, By(j0) + yh, Ey(j0) + yh]

    def inv(L):
        j = L['j']
        return [("n", L['n'] == j * lx), ("cell", Implies(j0 < j, And(*[a == b for a, b in zip(vals(L), want())]))),
                ("range", And(0 <= j, j <= ly))]

    def inv2(L):
        i, j = L['i'], L['j']
        done = Or(j0 < j, And(j0 == j, i0 < i))
        return [("n", L['n'] == j * lx + i), ("cell", Implies(done, And(*[a == b for a, b in zip(vals(L), want())]))),
                ("range", And(0 <= i, i <= lx, 0 <= j, j < ly))]

    P.loop(0, inv=inv)
    P.loop(1, inv=inv2)
    P.run()
    v = P.post
    f = lambda n: v.at(P.field(dom, n), None, I32)
    got = [v.at(v.at(P.field(dom, n), None, PTR), cell, I32) for n in names]
    P.ensures("list entry of processor (i,j)", And(*[a == b for a, b in zip(got, want())]))
    (n0, d0, _, _), (n1, d1, _, _) = P.eng.extents[:2]
    P.ensures("x and y are decomposed with the requested sizes", And(n0 == ni, d0 == lx, n1 == nj, d1 == ly))
    own = [v.at(v.at(P.field(dom, n), None, PTR), pe, I32) for n in names]
    P.ensures("own compute domain", And(f("isc") == own[0], f("iec") == own[1], f("jsc") == own[2], f("jec") == own[3]))
    P.ensures("data domain adds the halo", And(f("isd") == f("isc") - xh, f("ied") == f("iec") + xh, f("jsd") == f("jsc") - yh, f("jed") == f("jec") + yh))
    P.ensures("sizes", And(f("nxc") == f("iec") - f("isc") + 1, f("nyc") == f("jec") - f("jsc") + 1,
                           f("nxd") == f("ied") - f("isd") + 1, f("nyd") == f("jed") - f("jsd") + 1, f("nxg") == ni, f("nyg") == nj))
    return P


def _getter(func, fields):
    def b():
        P = Proof(DOM, func)
        dom = P.args[0]
        P.struct(dom, "domain2D")
        P.run()
        for n, a in zip(fields, P.args[1:]):
            P.ensures("returns " + n, P.post.at(a, None, I32) == P.pre.at(P.field(dom, n), None, I32))
        return P
    return b


def p_domains():
    P = Proof(DOM, "mpp_get_compute_domains2d")
    dom = P.args[0]
    P.struct(dom, "domain2D")
    pe, npes = setup_pe(P)
    k = P.ghost('k')
    P.requires(0 <= k, k < npes)
    lists = [P.pre.at(P.field(dom, n), None, PTR) for n in ("isclist", "ieclist", "jsclist", "jeclist")]
    for a in P.args[1:]:
        P.length(a, npes)
        P.elem(a, I32)

    def inv(L):
        return [("copied", Implies(k < L['n'], And(*[L.at(a, k) == P.pre.at(l, k, I32) for a, l in zip(P.args[1:], lists)])))]
    P.loop(0, inv=inv)
    P.run()
    P.ensures("lists returned", And(*[P.post.at(a, k) == P.pre.at(l, k, I32) for a, l in zip(P.args[1:], lists)]))
    return P


def proofs(tier):
    return [("mpp_compute_extent", p_extent), ("mpp_define_layout", p_layout), ("mpp_define_domain_1d", p_1d),
            ("mpp_define_domain2d", p_2d),
            ("mpp_get_compute_domain2d", _getter("mpp_get_compute_domain2d", ["isc", "iec", "jsc", "jec"])),
            ("mpp_get_data_domain2d", _getter("mpp_get_data_domain2d", ["isd", "ied", "jsd", "jed"])),
            ("mpp_get_global_domain2d", _getter("mpp_get_global_domain2d", ["nxg", "nyg"])),
            ("mpp_get_compute_domains2d", p_domains)]


# ------------------------------------------------------------------ bounded stand-in
def extent_oracle(npts, nd, ib, ie):
    if ib[0] != 0:
        return "first block starts at %d" % ib[0]
    if ie[nd - 1] != npts - 1:
        return "last block ends at %d" % ie[nd - 1]
    for k in range(nd):
        if ie[k] < ib[k]:
            return "block %d is empty" % k
        if k and ib[k] != ie[k - 1] + 1:
            return "gap or overlap before block %d" % k
    if nd % 2 == npts % 2:
        for k in range(nd):
            if ie[k] - ib[k] != ie[nd - 1 - k] - ib[nd - 1 - k]:
                return "not mirror symmetric"
    return None


def search(S):
    from engine.search import link, fenced
    so = link("libdom.so", fenced([DOM, "/verif/harness/domain_glue.c"]), shared=True)
    lib = ctypes.CDLL(so)

    def run_ext(c):
        npts, nd = c
        a = (ctypes.c_int * (nd + 2))(*([-7] * (nd + 2)))
        b = (ctypes.c_int * (nd + 2))(*([-7] * (nd + 2)))
        lib.mpp_compute_extent(npts, nd, ctypes.byref(a, 4), ctypes.byref(b, 4))
        if a[0] != -7 or a[nd + 1] != -7 or b[0] != -7 or b[nd + 1] != -7:
            return "writes outside the lists for npts=%d ndivs=%d" % c
        m = extent_oracle(npts, nd, a[1:nd + 1], b[1:nd + 1])
        return None if m is None else "decomposition of %d points into %d: %s" % (npts, nd, m)

    def gen_ext(rng, k):
        npts = rng.choice([rng.randint(1, 60), rng.randint(1, 2000), rng.randint(1, 20000)])
        return npts, rng.choice([rng.randint(1, npts), rng.randint(1, min(npts, 40)), max(1, npts // 2 + rng.randint(-3, 3)) if npts > 8 else 1,
                                 max(1, npts - rng.randint(0, 3))])

    exh = [(n, d) for n in range(1, 121) for d in range(1, n + 1)]
    S.parallel("mpp_compute_extent", gen_ext, run_ext, S.secs(3), first=exh,
               rule="all 1<=ndivs<=npts<=120, then random up to 20000 points")

    def run_lay(c):
        ni, nj, nd = c
        l = (ctypes.c_int * 4)(-7, -7, -7, -7)
        lib.mpp_define_layout(ni, nj, nd, ctypes.byref(l, 4))
        if l[0] != -7 or l[3] != -7 or l[1] < 1 or l[2] < 1 or l[1] * l[2] != nd:
            return "layout for %s is %s" % (c, list(l[1:3]))

    S.parallel("mpp_define_layout", lambda r, k: (r.randint(1, 5000), r.choice([1, r.randint(1, 5000)]), r.randint(1, 4000)), run_lay, S.secs(2),
               first=[(i, j, n) for i in (1, 2, 3, 7, 48) for j in (1, 2, 3, 5, 90) for n in range(1, 30)], rule="grid and division numbers")

    def run_2d(c):
        ni, nj, lx, ly, xh, yh, pe = c
        n = lx * ly
        out = (ctypes.c_int * 25)()
        L = [(ctypes.c_int * n)() for _ in range(4)]
        lib.h_domain2d(ni, nj, lx, ly, xh, yh, pe, out, *L)
        own = set()
        cov = [[0] * ni for _ in range(nj)]
        for p in range(n):
            i, j = p % lx, p // lx
            for jj in range(L[2][p] - yh, L[3][p] - yh + 1):
                for ii in range(L[0][p] - xh, L[1][p] - xh + 1):
                    if not (0 <= ii < ni and 0 <= jj < nj):
                        return "processor %d owns a point outside the grid in %s" % (p, c)
                    cov[jj][ii] += 1
            if i and L[0][p] != L[1][p - 1] + 1 or j and L[2][p] != L[3][p - lx] + 1:
                return "processor order broken at %d in %s" % (p, c)
        if any(x != 1 for r in cov for x in r):
            return "some grid point is not owned by exactly one processor in %s" % (c,)
        e = [L[0][pe], L[1][pe], L[2][pe], L[3][pe]]
        e += [e[0] - xh, e[1] + xh, e[2] - yh, e[3] + yh]
        e += [e[1] - e[0] + 1, e[3] - e[2] + 1, e[5] - e[4] + 1, e[7] - e[6] + 1, ni, nj]
        e += e[0:8] + [ni, nj, 0]
        if list(out) != e:
            return "domain description of processor %d is %s, expected %s in %s" % (pe, list(out), e, c)

    def gen_2d(r, k):
        ni, nj = r.randint(1, 24), r.randint(1, 24)
        lx, ly = r.randint(1, ni), r.randint(1, nj)
        return ni, nj, lx, ly, r.randint(0, 3), r.randint(0, 3), r.randrange(lx * ly)

    S.parallel("mpp_define_domain2d", gen_2d, run_2d, S.secs(4), rule="random grids up to 24x24, layouts, halos and processor numbers")
    S.samples = [{"npts": 18, "ndivs": 4}]
