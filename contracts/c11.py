"""C11: contacts between tiles are where their boundaries coincide"""
import ctypes
import math
import random
from fractions import Fraction
import numpy as np
import z3
from z3 import Implies, If, Or, Not
from engine.sym import AttachError, LoopCtx
from .common import *
from .c08 import same

GC = "src/make-solo-mosaic/get_contact.c"
R, Z = z3.RealSort(), z3.IntSort()
ASSUMPTIONS = ["tiles have at least one point in each direction and fewer than 2^31 points"]
TRUSTED = ["malloc succeeds", "printf"]
real = lambda x: z3.RealVal(str(Fraction(x)))
EPS, EPS2 = real(1.0e-10), real(1.0e-7)
absr = lambda v: If(v >= 0, v, -v)
mn = lambda a, b: If(a < b, a, b)


def lexle(a, b, c, d):
    return Or(a < c, And(a == c, b <= d))


def p_index():
    """get_contact_index: the first and the last pair of coincident points"""
    P = Proof(GC, "get_contact_index")
    a = P.a
    n1, n2, px, py = a["size1"], a["size2"], a["periodx"], a["periody"]
    for k, n in (("x1", n1), ("y1", n1), ("x2", n2), ("y2", n2)):
        P.elem(a[k], F64)
        P.length(a[k], n)
    out = ("start1", "end1", "start2", "end2")
    for k in out:
        P.elem(a[k], I32)
        P.length(a[k], 1)
    P.requires(n1 >= 1, n2 >= 1)
    V = lambda k, i: P.pre.at(a[k], i, F64)

    def coin(i, j):
        dx, dy = absr(V("x1", i) - V("x2", j)), absr(V("y1", i) - V("y2", j))
        return And(mn(dx, absr(dx - px)) < EPS, mn(dy, absr(dy - py)) < EPS)
    # the first and the last pair of coincident points, if there are any
    HAS = z3.Bool("has_coincident_points")
    w1, w2, v1, v2 = [P.ghost(k) for k in ("first1", "first2", "last1", "last2")]
    inr = lambda i, j: And(0 <= i, i < n1, 0 <= j, j < n2)
    P.requires(Implies(HAS, And(inr(w1, w2), coin(w1, w2), inr(v1, v2), coin(v1, v2))))
    fact = lambda i, j: Implies(And(inr(i, j), coin(i, j)), And(HAS, lexle(w1, w2, i, j), lexle(i, j, v1, v2)))
    P.requires(fact(w1, w2), fact(v1, v2))
    o = lambda L, k: L.at(a[k], None, I32)

    def at(L):
        if not P.eng.dry:
            P.eng.facts.append(fact(L["i1"], L["i2"]))
    lexlt = lambda i, j, k, l: And(lexle(i, j, k, l), Or(i != k, j != l))
    first = lambda L: And(HAS, o(L, "start1") == w1 + 1, o(L, "start2") == w2 + 1)

    def inv(L, down, i, j):
        at(L)
        if down:
            return [("last not passed", lexle(v1, v2, i, j)), ("first", first(L))]
        return [("first not passed", Implies(HAS, lexle(i, j, w1, w2)))]
    P.loop(0, inv=lambda L: [("i1", And(0 <= L["i1"], L["i1"] <= n1))] + inv(L, False, L["i1"], iv(0)))
    P.loop(1, inv=lambda L: [("i2", And(0 <= L["i2"], L["i2"] <= n2))] + inv(L, False, L["i1"], L["i2"]))
    P.loop(2, inv=lambda L: [("i1", And(-1 <= L["i1"], L["i1"] < n1))] + inv(L, True, L["i1"], n2))
    P.loop(3, inv=lambda L: [("i2", And(-1 <= L["i2"], L["i2"] < n2))] + inv(L, True, L["i1"], L["i2"]))
    P.run()
    P.ensures("a contact exactly when the first and the last coincident points differ on both sides", P.ret == If(And(HAS, w1 != v1, w2 != v2), 1, 0))
    for k, w, v in ((1, w1, v1), (2, w2, v2)):
        S, E = o(P.post, "start%d" % k), o(P.post, "end%d" % k)
        P.ensures("cells of side %d" % k, Implies(P.ret == 1, And(S == If(w > v, w, w + 1), E == If(w > v, v + 1, v))))
    return P


def p_find():
    """get_overlap_index: the first point of the tile at the given place"""
    P = Proof(GC, "get_overlap_index")
    a, nx, ny = P.a, P.a["nx2"], P.a["ny2"]
    for k in ("x2", "y2"):
        P.elem(a[k], F64)
        P.length(a[k], simp(nx * ny))
    for k in ("i2", "j2"):
        P.elem(a[k], I32)
        P.length(a[k], 1)
    P.requires(nx >= 1, ny >= 1, nx * ny < 2 ** 31)
    V = lambda k, i: P.pre.at(a[k], i, F64)
    HAS = z3.Bool("has_point")
    wi, wj = P.ghost("i"), P.ghost("j")
    coin = lambda i, j: And(absr(a["x1"] - V("x2", simp(j * nx + i))) < EPS, absr(a["y1"] - V("y2", simp(j * nx + i))) < EPS)
    inr = lambda i, j: And(0 <= i, i < nx, 0 <= j, j < ny)
    P.requires(Implies(HAS, And(inr(wi, wj), coin(wi, wj))))
    fact = lambda i, j: Implies(And(inr(i, j), coin(i, j)), And(HAS, lexle(wj, wi, j, i)))
    i_, j_, n_, m_ = z3.Ints("li lj ln lm")
    room = P.lemma("a point lies in the tile", [i_, j_, n_, m_], Implies(And(0 <= i_, i_ < n_, 0 <= j_, j_ < m_), And(0 <= j_ * n_ + i_, j_ * n_ + i_ < n_ * m_, 0 <= j_ * n_, j_ * n_ < n_ * m_)))

    def inv(L, i, j):
        if not P.eng.dry:
            P.eng.facts.append(fact(L["i"], L["j"]))
            room(L["i"], L["j"], nx, ny)
        return [("not passed", Implies(HAS, lexle(j, i, wj, wi)))]
    P.loop(0, inv=lambda L: [("j", And(0 <= L["j"], L["j"] <= ny))] + inv(L, iv(0), L["j"]))
    P.loop(1, inv=lambda L: [("i", And(0 <= L["i"], L["i"] <= nx))] + inv(L, L["i"], L["j"]))
    P.run()
    P.ensures("found exactly when there is such a point", P.ret == If(HAS, 1, 0))
    P.ensures("the first such point", Implies(HAS, And(P.post.at(a["i2"], None, I32) == wi, P.post.at(a["j2"], None, I32) == wj)))
    return P


SIDE = {"west": lambda i, nx, ny: i * nx, "east": lambda i, nx, ny: i * nx + nx - 1, "south": lambda i, nx, ny: i, "north": lambda i, nx, ny: (ny - 1) * nx + i}
LEN = {"west": lambda nx, ny: ny, "east": lambda nx, ny: ny, "south": lambda nx, ny: nx, "north": lambda nx, ny: nx}


def p_bound(side):
    def b():
        P = Proof(GC, side + "_bound")
        a, nx, ny = P.a, P.a["nx"], P.a["ny"]
        P.elem(a["data"], F64)
        P.length(a["data"], simp(nx * ny))
        P.requires(nx >= 1, ny >= 1, nx * ny < 2 ** 31)
        n = LEN[side](nx, ny)
        g = P.ghost("k")
        P.requires(0 <= g, g < n)
        i_, n_, m_ = z3.Ints("li ln lm")
        ix = SIDE[side](i_, n_, m_)
        extra = [0 <= i_ * n_, i_ * n_ < n_ * m_] if side in ("west", "east") else [0 <= (m_ - 1) * n_] if side == "north" else []
        room = P.lemma("the boundary lies in the tile", [i_, n_, m_], Implies(And(0 <= i_, i_ < LEN[side](n_, m_), n_ >= 1, m_ >= 1), And(0 <= ix, ix < n_ * m_, *extra)))
        room(iv(0), nx, ny)

        def inv(L):
            room(L["i"], nx, ny)
            return [("i", And(0 <= L["i"], L["i"] <= n)), ("copied", Implies(g < L["i"], L.at(L["bnd"], g, F64) == P.pre.at(a["data"], simp(SIDE[side](g, nx, ny)), F64)))]
        P.loop(0, inv=inv)
        P.run()
        P.ensures("the points of the boundary in order", P.post.at(P.ret, g, F64) == P.pre.at(a["data"], simp(SIDE[side](g, nx, ny)), F64))
        return P
    return b


# the sides that may touch, in the order in which contacts are listed
PAIRS = [("east", "west", "x", None), ("east", "south", None, False), ("south", "north", "y", None), ("south", "east", None, False),
         ("west", "east", "x", False), ("west", "north", None, False), ("north", "south", "y", False), ("north", "west", None, False)]
OUT = ("istart1", "iend1", "jstart1", "jend1", "istart2", "iend2", "jstart2", "jend2")


def p_align():
    """get_align_contact: the eight pairs of sides and the folded north boundary"""
    P = Proof(GC, "get_align_contact")
    a = P.a
    n = {1: (a["nx1"], a["ny1"]), 2: (a["nx2"], a["ny2"])}
    for t in (1, 2):
        nx, ny = n[t]
        P.requires(nx >= 2, ny >= 2, nx * ny < 2 ** 31)
        for k in "xy":
            P.elem(a["%s%d" % (k, t)], F64)
            P.length(a["%s%d" % (k, t)], simp(nx * ny))
    for k in OUT:
        P.elem(a[k], I32)
        P.length(a[k], 9)
    one = a["tile1"] == a["tile2"]
    # the same tile means the same points
    P.requires(Implies(one, And(n[1][0] == n[2][0], n[1][1] == n[2][1])))
    FOUND = [z3.Bool("contact_%s_%s" % p[:2]) for p in PAIRS]
    VAL = [[z3.Int("%s_%s_%s" % (v, p[0], p[1])) for v in ("start1", "end1", "start2", "end2")] for p in PAIRS]
    regs = {}

    def bound(side):
        def f(c):
            data, nx, ny = c.args
            hit = [(k, t) for t in (1, 2) for k in "xy" if data.region is a["%s%d" % (k, t)].region]
            if not hit:
                raise AttachError("boundary of something else")
            k, t = hit[0]
            c.require("the whole tile", And(same(data, a["%s%d" % (k, t)]), nx == n[t][0], ny == n[t][1]))
            r = c.eng.region(freshname("bnd_%s_%s%d" % (side, k, t)), kind="malloc")
            r.types[()] = F64
            m = LEN[side](nx, ny)
            r.length = lambda *pre: m
            p = Ptr(r, (), (iv(0),))
            c.bulk(p, F64, lambda *ix: And(ix[-1] >= 0, ix[-1] < m), lambda *ix: P.pre.at(data, simp(SIDE[side](ix[-1], nx, ny)), F64))
            return p
        return f

    def reads(c, what, p, m, k, t, side):
        l = z3.Int(freshname("l"))
        c.require(what, forall([l], Implies(And(0 <= l, l < m), c.at(p, l, F64) == P.pre.at(a["%s%d" % (k, t)], simp(SIDE[side](l, *n[t])), F64)), []))
    calls = []

    def index(c):
        s1, s2, x1, y1, x2, y2, px, py = c.args[:8]
        k = len(calls)
        if k >= len(PAIRS):
            raise AttachError("more boundary comparisons than pairs of sides")
        u, v, per, same_ = PAIRS[k]
        if not c.eng.dry:
            calls.append(k)
        if same_ is False:
            c.require("only between different tiles", Not(one))
        c.require("number of points of %s and %s" % (u, v), And(s1 == LEN[u](*n[1]), s2 == LEN[v](*n[2])))
        for what, p, m, q, t, side in (("x", x1, s1, "x", 1, u), ("y", y1, s1, "y", 1, u), ("x", x2, s2, "x", 2, v), ("y", y2, s2, "y", 2, v)):
            reads(c, "%s of the %s boundary of tile %d" % (what, side, t), p, m, q, t, side)
        c.require("period", And(px == (a["periodx"] if per == "x" else 0), py == (a["periody"] if per == "y" else 0)))
        for p, w in zip(c.args[8:12], VAL[k]):
            c.set(p, I32, w)
        return If(FOUND[k], iv(1), iv(0))
    P.eng.contracts.update({s_ + "_bound": bound(s_) for s_ in SIDE})
    P.eng.contracts.update({"get_contact_index": index, "free": lambda c: None, "printf": lambda c: None})
    X, Y = [(lambda i, k=k: P.pre.at(a[k + "1"], simp(SIDE["north"](i, *n[1])), F64)) for k in "xy"]
    nx1, ny1 = n[1]
    far = lambda i: absr(X(i) - X(simp(nx1 - i - 1)))
    half = lambda i: And(far(i) > EPS2, absr(far(i) - 360) > EPS2, absr(far(i) - 180) < EPS2)
    mirror = lambda i: And(absr(Y(i) - Y(simp(nx1 - i - 1))) <= EPS2, Or(far(i) <= EPS2, absr(far(i) - 360) <= EPS2, absr(far(i) - 180) < EPS2))
    CNT = z3.Function("HalfTurnsAmongFirst", Z, Z)
    P.requires(CNT(iv(0)) == 0)
    hf = P.ghost("half")
    P.requires(0 <= hf, 2 * hf <= nx1, nx1 <= 2 * hf + 1)
    FOLD = z3.Bool("folded")
    g, w = P.ghost("point"), P.ghost("point_not_mirrored")
    # FOLD: every point of the first half has its mirror image and at most one pair is half a turn apart
    P.requires(Implies(Not(FOLD), Or(And(0 <= w, w < hf, Not(mirror(w))), CNT(hf) > 1)), Implies(FOLD, CNT(hf) <= 1))
    mir = lambda i: Implies(And(FOLD, 0 <= i, i < hf), mirror(i))

    def inv(L):
        i = L["i"]
        if not P.eng.dry:
            P.eng.facts.append(mir(i))
            for t in (i, simp(i - 1)):
                P.eng.facts.append(Implies(And(0 <= t, t < hf), CNT(simp(t + 1)) == CNT(t) + If(half(t), 1, 0)))
        return [("i", And(0 <= i, i <= hf)), ("so far folded", And(L["folded"] == 1, Implies(And(0 <= w, w < i), mirror(w)), L["num"] == CNT(i)))]
    P.loop(0, inv=inv)
    P.run()
    if len(calls) != len(PAIRS):
        raise AttachError("%d boundary comparisons" % len(calls))
    on = [And(f, Not(one)) if p[3] is False else f for f, p in zip(FOUND, PAIRS)]
    on.append(And(one, FOLD))
    pos = [iv(0)]
    for f in on:
        pos.append(simp(pos[-1] + If(f, 1, 0)))
    P.ensures("one contact for each pair of sides that touch", P.ret == pos[-1])
    o = lambda k, i: P.post.at(a[k], i, I32)
    for k, (u, v, per, s_) in enumerate(PAIRS):
        s1, e1, s2, e2 = VAL[k]
        for t, side, S, E in ((1, u, s1, e1), (2, v, s2, e2)):
            nx, ny = n[t]
            edge = {"east": nx - 1, "west": iv(1), "south": iv(1), "north": ny - 1}[side]
            I_, J_ = ((edge, edge), (S, E)) if side in ("east", "west") else ((S, E), (edge, edge))
            P.ensures("contact %s-%s: cells of tile %d" % (u, v, t), Implies(on[k], And(*[o("%s%d" % (nm, t), pos[k]) == val for nm, val in zip(("istart", "iend", "jstart", "jend"), I_ + J_)])))
    P.ensures("folded north boundary", Implies(on[8], And(*[o(nm, pos[8]) == val for nm, val in zip(OUT, (iv(1), hf, ny1 - 1, ny1 - 1, nx1 - 1, hf + 1, ny1 - 1, ny1 - 1))])))
    return P


def p_overlap():
    """get_overlap_contact: one tile nested in the other"""
    P = Proof(GC, "get_overlap_contact")
    a = P.a
    n = {1: (a["nx1"], a["ny1"]), 2: (a["nx2"], a["ny2"])}
    for t in (1, 2):
        nx, ny = n[t]
        P.requires(nx >= 2, ny >= 2, nx * ny < 2 ** 31)
        for k in "xy":
            P.elem(a["%s%d" % (k, t)], F64)
            P.length(a["%s%d" % (k, t)], simp(nx * ny))
    for k in OUT:
        P.elem(a[k], I32)
        P.length(a[k], 1)
    corner = lambda t, q: [(iv(0), iv(0)), (simp(n[t][0] - 1), iv(0)), (iv(0), simp(n[t][1] - 1)), (simp(n[t][0] - 1), simp(n[t][1] - 1))][q]
    lin = lambda t, q: simp(corner(t, q)[1] * n[t][0] + corner(t, q)[0])
    i_, j_ = z3.Ints("li lj")
    rm = P.lemma("corners lie in the tile", [i_, j_], Implies(And(i_ >= 1, j_ >= 1), And((j_ - 1) * i_ >= 0, (j_ - 1) * i_ + i_ <= i_ * j_)))
    for t in (1, 2):
        rm(*n[t])
    # corner q of tile t: found in the other tile at (FI, FJ)
    F = {(t, q): (z3.Bool("found_%d_%d" % (t, q)), z3.Int("fi_%d_%d" % (t, q)), z3.Int("fj_%d_%d" % (t, q))) for t in (1, 2) for q in range(4)}
    for (t, q), (f, i, j) in F.items():
        m = n[3 - t]
        P.requires(Implies(f, And(0 <= i, i < m[0], 0 <= j, j < m[1])))
    calls = []

    def find(c):
        x, y, nx, ny, xs, ys, pi, pj = c.args
        k = len(calls)
        if k >= 8:
            raise AttachError("more than eight corners")
        calls.append(k)
        t, q = (2, k) if k < 4 else (1, k - 4)
        c.require("the corner of tile %d" % t, And(x == P.pre.at(a["x%d" % t], lin(t, q), F64), y == P.pre.at(a["y%d" % t], lin(t, q), F64)))
        c.require("the other tile", And(same(xs, a["x%d" % (3 - t)]), same(ys, a["y%d" % (3 - t)]), nx == n[3 - t][0], ny == n[3 - t][1]))
        f, i, j = F[t, q]
        for p, v in ((pi, i), (pj, j)):
            c.set(p, I32, If(f, v, c.at(p, None, I32)))
        return If(f, iv(1), iv(0))
    P.eng.contracts.update({"get_overlap_index": find})
    P.run()
    if len(calls) != 8:
        raise AttachError("%d corners" % len(calls))
    two = And(*[F[2, q][0] for q in range(4)])
    one = And(*[F[1, q][0] for q in range(4)])
    # the corners as points of each tile
    pt = {}
    for q in range(4):
        for t in (1, 2):
            for d in (0, 1):
                # tile 2's corners found in tile 1, else tile 1's corners found in tile 2
                pt[t, q, d] = If(two, F[2, q][1 + d] if t == 1 else corner(2, q)[d], corner(1, q)[d] if t == 1 else F[1, q][1 + d])
    rect = And(*[And(pt[t, 0, 1] == pt[t, 1, 1], pt[t, 0, 0] == pt[t, 2, 0], pt[t, 2, 1] == pt[t, 3, 1], pt[t, 1, 0] == pt[t, 3, 0], pt[t, 0, 1] != pt[t, 2, 1], pt[t, 0, 0] != pt[t, 1, 0]) for t in (1, 2)])
    P.ensures("an overlap exactly when all corners of one tile are points of the other, without rotation", P.ret == If(And(Or(two, one), rect), 1, 0))
    for t in (1, 2):
        o = lambda k: P.post.at(a["%s%d" % (k, t)], None, I32)
        P.ensures("cells of tile %d" % t, Implies(P.ret == 1, And(o("istart") == pt[t, 0, 0] + 1, o("iend") == pt[t, 1, 0], o("jstart") == pt[t, 0, 1] + 1, o("jend") == pt[t, 3, 1])))
    return P


def proofs(tier):
    return [("get_contact_index", p_index), ("get_overlap_index", p_find), ("get_align_contact", p_align), ("get_overlap_contact", p_overlap)] + [(s_ + "_bound", p_bound(s_)) for s_ in SIDE]


# ------------------------------------------------------------------ bounded stand-in
def o_side(a, side):
    return {"west": a[:, 0], "east": a[:, -1], "south": a[0, :], "north": a[-1, :]}[side]


def o_pair(x1, y1, x2, y2, px, py):
    """cells (start1, end1, start2, end2) of the contact of two boundaries, or None"""
    hit = []
    for i in range(len(x1)):
        for j in range(len(x2)):
            dx, dy = abs(x1[i] - x2[j]), abs(y1[i] - y2[j])
            if min(dx, abs(dx - px)) < 1e-10 and min(dy, abs(dy - py)) < 1e-10:
                hit.append((i, j))
    if not hit:
        return None
    (a, b), (c, d) = min(hit), max(hit)
    if a == c or b == d:
        return None
    cell = lambda u, v: (u, v + 1) if u > v else (u + 1, v)
    return cell(a, c) + cell(b, d)


def o_align(same_, T1, T2, px, py):
    (x1, y1), (x2, y2) = T1, T2
    out = []
    for u, v, per, s_ in PAIRS:
        if same_ and s_ is False:
            continue
        c = o_pair(o_side(x1, u), o_side(y1, u), o_side(x2, v), o_side(y2, v), px if per == "x" else 0.0, py if per == "y" else 0.0)
        if c is None:
            continue
        rec = []
        for (S, E), side, a in ((c[:2], u, x1), (c[2:], v, x2)):
            ny, nx = a.shape
            e = {"east": nx - 1, "west": 1, "south": 1, "north": ny - 1}[side]
            rec += [e, e, S, E] if side in ("east", "west") else [S, E, e, e]
        out.append(tuple(rec))
    if same_:
        x, y = x1[-1], y1[-1]
        n = len(x)
        ok, halves = True, 0
        for i in range(n // 2):
            d = abs(x[i] - x[n - 1 - i])
            if abs(y[i] - y[n - 1 - i]) > 1e-7:
                ok = False
            elif d > 1e-7 and abs(d - 360) > 1e-7:
                if abs(d - 180) < 1e-7:
                    halves += 1
                else:
                    ok = False
        if ok and halves <= 1:
            ny = x1.shape[0]
            out.append((1, n // 2, ny - 1, ny - 1, n - 1, n // 2 + 1, ny - 1, ny - 1))
    return out


def o_overlap(T1, T2):
    def locate(T, x, y):
        for j in range(T[0].shape[0]):
            for i in range(T[0].shape[1]):
                if abs(T[0][j, i] - x) < 1e-10 and abs(T[1][j, i] - y) < 1e-10:
                    return i, j
        return None
    for a, b in ((1, 2), (2, 1)):
        # corners of tile b as points of tile a
        A, B = (T1, T2) if a == 1 else (T2, T1)
        ny, nx = B[0].shape
        cs = [(0, 0), (nx - 1, 0), (0, ny - 1), (nx - 1, ny - 1)]
        f = [locate(A, B[0][j, i], B[1][j, i]) for i, j in cs]
        if None in f:
            continue
        p = {a: f, b: cs}
        for t in (1, 2):
            q = p[t]
            if q[0][1] != q[1][1] or q[0][0] != q[2][0] or q[2][1] != q[3][1] or q[1][0] != q[3][0] or q[0][1] == q[2][1] or q[0][0] == q[1][0]:
                return None
        return tuple(v for t in (1, 2) for v in (p[t][0][0] + 1, p[t][1][0], p[t][0][1] + 1, p[t][3][1]))
    return None


def world(r, big=False):
    """tiles cut from a rectangle, turned around, perhaps periodic, nested or folded"""
    NX, NY = r.randint(2, 9), r.randint(2, 9)
    per = r.choice([0, 0, 1, 2, 3])
    wx, wy = 360.0 if per & 1 else r.choice([90.0, 100.0]), r.choice([120.0, 140.0])
    X, Y = np.meshgrid(np.linspace(0, wx, NX + 1) + r.choice([0.0, -180.0, 20.0]), np.linspace(-60, -60 + wy, NY + 1))
    if not per & 1 and r.random() < .5:
        X = X + .1 * Y
    px, py = 360.0 if per & 1 else 0.0, wy if per & 2 else 0.0
    if r.random() < .2:
        px = r.choice([360.0, 0.0])
    cx = sorted({0, NX} | {r.randint(1, NX) for _ in range(r.choice([0, 0, 1, 2]))})
    cy = sorted({0, NY} | {r.randint(1, NY) for _ in range(r.choice([0, 0, 1]))})
    tiles = []
    for b, t in zip(cy, cy[1:]):
        for l, g in zip(cx, cx[1:]):
            x, y = X[b:t + 1, l:g + 1].copy(), Y[b:t + 1, l:g + 1].copy()
            if r.random() < .35:
                k = r.randint(0, 3)
                x, y = np.rot90(x, k), np.rot90(y, k)
            if r.random() < .05:
                x, y = x[::-1], y[::-1]
            tiles.append((np.ascontiguousarray(x), np.ascontiguousarray(y)))
    if r.random() < .3 and NX > 2 and NY > 2:
        # a nest: part of a tile, finer
        x, y = tiles[r.randrange(len(tiles))]
        ny, nx = x.shape
        i0, j0 = r.randrange(nx - 1), r.randrange(ny - 1)
        i1, j1 = r.randint(i0 + 1, nx - 1), r.randint(j0 + 1, ny - 1)
        sx, sy = x[j0:j1 + 1, i0:i1 + 1], y[j0:j1 + 1, i0:i1 + 1]
        f = r.choice([1, 2, 3])

        def fine(a):
            ny, nx = a.shape
            u, v = np.linspace(0, ny - 1, f * (ny - 1) + 1), np.linspace(0, nx - 1, f * (nx - 1) + 1)
            a = np.array([[np.interp(t, range(nx), row) for t in v] for row in a])
            return np.array([[np.interp(t, range(ny), col) for t in u] for col in a.T]).T.copy()
        t = (fine(sx), fine(sy))
        if r.random() < .2:
            t = (np.ascontiguousarray(np.rot90(t[0])), np.ascontiguousarray(np.rot90(t[1])))
        tiles.insert(r.choice([0, len(tiles)]), t)
    for x, y in tiles:
        if r.random() < .3:
            # fold the north boundary
            n = x.shape[1]
            for i in range(n // 2):
                y[-1, n - 1 - i] = y[-1, i]
                x[-1, n - 1 - i] = x[-1, i] + r.choice([0, 0, 0, 360.0])
            if r.random() < .3:
                x[-1, n - 1] = x[-1, 0] + 180
            if r.random() < .2:
                i = r.randrange(n)
                (x if r.random() < .5 else y)[-1, i] += r.choice([1e-9, 1e-5, 180.0, 1.0])
        if r.random() < .3:
            x += np.array([[r.choice([0, 1e-12, -1e-12]) for _ in q] for q in x])
        if r.random() < .1:
            i, j = r.randrange(x.shape[1]), r.randrange(x.shape[0])
            x[j, i] += r.choice([1e-8, 1e-11, .5])
    return [(x.tolist(), y.tolist()) for x, y in tiles], px, py


def search(S):
    import os
    import shutil
    import subprocess
    from engine import search as H, nc
    from engine.irparse import scratch
    lib = ctypes.CDLL(H.link("libcontact.so", H.fenced([GC]), shared=True))
    tool = H.tool("make_solo_mosaic", ["src/make-solo-mosaic/make_solo_mosaic.c", GC])
    ptr = lambda a: a.ctypes.data_as(ctypes.c_void_p)
    D = ctypes.c_double
    arr = lambda ts: [(np.array(x), np.array(y)) for x, y in ts]

    def gen(r, k):
        t, px, py = world(r)
        return t, px, py, r.randrange(len(t)), r.randrange(len(t))

    def run(c):
        T, px, py, n, m = c
        T = arr(T)
        (x1, y1), (x2, y2) = T[n], T[m]
        out = [np.full(12, -7, dtype=np.int32) for _ in range(8)]
        sz = [x1.shape[1], x1.shape[0], x2.shape[1], x2.shape[0]]
        k = lib.get_align_contact(n + 1, m + 1, *sz, ptr(x1), ptr(y1), ptr(x2), ptr(y2), D(px), D(py), *[ptr(o) for o in out])
        want = o_align(n == m, T[n], T[m], px, py)
        got = [tuple(int(o[q]) for o in out) for q in range(max(0, min(k, 12)))]
        if got != want:
            return "get_align_contact gives %r, the boundaries coincide in %r" % (got, want)
        if any((o[k:] != -7).any() for o in out):
            return "get_align_contact wrote more contacts than it returned"
        if n != m:
            out = [np.full(3, -7, dtype=np.int32) for _ in range(8)]
            k = lib.get_overlap_contact(n + 1, m + 1, *sz, ptr(x1), ptr(y1), ptr(x2), ptr(y2), *[ptr(o) for o in out])
            w = o_overlap(T[n], T[m])
            got = tuple(int(o[0]) for o in out) if k else None
            if k not in (0, 1) or got != w:
                return "get_overlap_contact gives %r, the tiles overlap in %r" % (got, w)
    S.parallel("contacts", gen, run, S.secs(6, 60), rule="pairs of tiles cut from rectangles of up to 10x10 points, turned, flipped, periodic, nested, folded and perturbed; contacts compared with an exhaustive comparison of the points")

    def run_tool(c):
        T, px, py, n, m = c
        A = arr(T)
        d = os.path.join(scratch(), "solo%d" % os.getpid())
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        names = ["t%d" % (k + 1) if n % 2 else "tile%d" % (k * 3 + 1) for k in range(len(A))]
        files = ["g.tile%d.nc" % (k + 1) if m % 2 else "horizontal_grid%s.nc" % ("" if len(A) == 1 else ".tile%d" % (k + 1)) for k in range(len(A))]
        for (x, y), f, t in zip(A, files, names):
            ny, nx = x.shape
            nc.write(os.path.join(d, f), [("string", 255), ("nyp", ny), ("nxp", nx)],
                     [("tile", "c", ["string"], np.frombuffer(t.ljust(255, "\0").encode(), "S1"), {}), ("x", "d", ["nyp", "nxp"], x, {}), ("y", "d", ["nyp", "nxp"], y, {})])
        want = []
        for k in range(len(A)):
            for l in range(k, len(A)):
                want += [(k, l, q) for q in o_align(k == l, A[k], A[l], px, py)]
        for k in range(len(A)):
            for l in range(k + 1, len(A)):
                o = o_overlap(A[k], A[l])
                if o:
                    want.append((k, l, o))
        cmd = [tool, "--num_tiles", str(len(A)), "--directory", "./", "--mosaic_name", "mos", "--periodx", repr(px), "--periody", repr(py)]
        if m % 2:
            cmd += ["--tile_file", ",".join(files)]
        r = subprocess.run(cmd, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60)
        if r.returncode:
            return "make_solo_mosaic ended with status %d" % r.returncode
        st = lambda v: v.split(b"\0")[0].decode()
        dims, vs = nc.read(os.path.join(d, "mos.nc"))[:2]
        rows = lambda nm: [st(row.tobytes()) for row in np.asarray(vs[nm][2]).astype("S1").reshape(-1, 255)]
        if rows("gridtiles") != names or rows("gridfiles") != files or rows("gridlocation") != ["./"] or rows("mosaic") != ["mos"]:
            return "names in the mosaic: %r" % ((rows("gridtiles"), rows("gridfiles"), rows("gridlocation"), rows("mosaic")),)
        wc = ["mos:%s::mos:%s" % (names[k], names[l]) for k, l, q in want]
        wi = ["%d:%d,%d:%d::%d:%d,%d:%d" % q for k, l, q in want]
        gc = rows("contacts") if "contacts" in vs else []
        gi = rows("contact_index") if "contact_index" in vs else []
        if gc != wc or gi != wi:
            return "contacts in the mosaic: %r, the tiles have %r" % (list(zip(gc, gi)), list(zip(wc, wi)))
    S.parallel("make_solo_mosaic", gen, run_tool, S.secs(5, 40), rule="whole mosaics of such tiles; every name and contact of the mosaic file compared")
