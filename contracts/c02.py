"""C02: assembling a decomposed field / gathering per-processor lists loses, moves and invents nothing"""
import ctypes
import z3
from z3 import Implies, If, Or, Not
from .common import *
from .c01 import setup_pe

R_D = z3.Function("recv_double", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.RealSort())  # phase, from, k
R_I = z3.Function("recv_int", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())

ASSUMPTIONS = [
    "message layer: a receive of n items from p in a phase (between two self-synchronisations) yields the n items p sent to this processor in that phase",
    "MPI itself is outside the proof; the send side is proved to hand over exactly the compute-domain cells in row-major order",
    "every processor holds the same decomposition lists (C01), the lists lie inside the global domain",
]
TRUSTED = ["assumed contracts: mpp_send_*, mpp_recv_*, mpp_sync_self, mpp_sync"]


def ghost0(P, **kw):
    for k, v in kw.items():
        P.st0.mem[("ghost_" + k, (), I64)] = v


def c_recv(ty, R):
    def c(ctx):
        buf, size, p = ctx.args
        ph = ctx.ghost("phase")
        lo = buf.idx[-1]
        eng = ctx.eng
        if eng.bounds:
            from engine.sym import State
            s2 = State(ctx.st.pc + (size > 0,), ctx.st.mem)
            eng.check_bounds(s2, buf, ty, ctx.I.line, "receive")
            eng.check_bounds(s2, Ptr(buf.region, buf.path, buf.idx[:-1] + (lo + size - 1,)), ty, ctx.I.line, "receive")
        ctx.bulk(buf, ty, lambda *ix: And(*[a == b for a, b in zip(ix[:-1], buf.idx[:-1])], ix[-1] >= lo, ix[-1] < lo + size),
                 lambda *ix: R(ph, p, simp(ix[-1] - lo)))
        if getattr(ctx.eng, "on_recv", None) and not ctx.eng.dry:
            ctx.eng.on_recv(ctx, ty, buf, size, p)
    return c


def c_send(ty):
    def c(ctx):
        buf, size, p = ctx.args
        if getattr(ctx.eng, "on_send", None):
            ctx.eng.on_send(ctx, ty, buf, size, p)
        ctx.set_ghost("nsent", ctx.ghost("nsent") + 1)
    return c


def c_sync(ctx):
    ctx.set_ghost("phase", ctx.ghost("phase") + 1)


def c_shift(ctx):
    dom, sx, sy, pi, pj = ctx.args
    dom.region.ety = ("struct", "struct.domain2D")
    g = lambda n: ctx.at(ctx.field(dom, n), None, I32)
    nxc, nyc, nxd, nyd = g("nxc"), g("nyc"), g("nxd"), g("nyd")
    for a, b in ((nxc, nyc), (nxd, nyd)):
        pass
    ok = Or(*[And(sx == a + i, sy == b + j) for a, b in ((nxc, nyc), (nxd, nyd)) for i in (0, 1) for j in (0, 1)])
    ctx.require("data is on the compute or the data domain", ok)
    # the postcondition determines the shifts: they are the ones the array was allocated with
    v1, v2 = z3.Ints("ish jsh")
    x, y = fresh("x", z3.IntSort()), fresh("y", z3.IntSort())
    ctx.require("shift is determined by the size", Implies(shift_post(sx, sy, nxc, nyc, nxd, nyd, x, y), And(x == v1, y == v2)))
    ctx.require("shift consistent", shift_post(sx, sy, nxc, nyc, nxd, nyd, v1, v2))
    ctx.set(pi, I32, v1)
    ctx.set(pj, I32, v2)


def shift_post(sx, sy, nxc, nyc, nxd, nyd, i, j):
    return And(0 <= i, i <= 1, 0 <= j, j <= 1, Or(And(sx == nxc + i, sy == nyc + j), And(sx == nxd + i, sy == nyd + j)))


CON = {"mpp_get_shift": c_shift, "mpp_recv_double": c_recv(F64, R_D), "mpp_recv_int": c_recv(I32, R_I),
       "mpp_send_double": c_send(F64), "mpp_send_int": c_send(I32), "mpp_sync_self": c_sync, "mpp_sync": lambda c: None}


def p_shift():
    P = Proof(DOM, "mpp_get_shift")
    dom, sx, sy, pi, pj = P.args
    P.struct(dom, "domain2D")
    g = lambda n: P.pre.at(P.field(dom, n), None, I32)
    nxc, nyc, nxd, nyd = g("nxc"), g("nyc"), g("nxd"), g("nyd")
    P.requires(Or(*[And(sx == a + i, sy == b + j) for a, b in ((nxc, nyc), (nxd, nyd)) for i in (0, 1) for j in (0, 1)]))
    no_error_exit(P)
    P.run()
    P.ensures("shift explains the array size", shift_post(sx, sy, nxc, nyc, nxd, nyd, P.post.at(pi, None, I32), P.post.at(pj, None, I32)))
    return P


def p_shift_err():
    """a size that fits neither domain is refused: no normal return"""
    P = Proof(DOM, "mpp_get_shift")
    dom, sx, sy, pi, pj = P.args
    P.struct(dom, "domain2D")
    g = lambda n: P.pre.at(P.field(dom, n), None, I32)
    nxc, nyc, nxd, nyd = g("nxc"), g("nyc"), g("nxd"), g("nyd")
    P.run()
    P.ensures("mismatched sizes are refused",
              Or(*[And(sx == a + i, sy == b + j) for a, b in ((nxc, nyc), (nxd, nyd)) for i in (0, 1) for j in (0, 1)]))
    return P


def field(func, ty, mode, threeD=False):
    """mode: 'root' (pe==root_pe), 'other' (pe!=root_pe), 'all' ; data on compute or data domain: both"""
    def b():
        P = Proof(DOM, func, contracts=dict(CON), timeout=30)
        a = P.a
        dom, sx, sy, ld, gd = a["domain"], a["sizex"], a["sizey"], a["ldata"], a["gdata"]
        nz = a.get("sizez", iv(1))
        R = R_D if ty == F64 else R_I
        P.struct(dom, "domain2D")
        P.elem(ld, ty)
        P.elem(gd, ty)
        pe, npes = setup_pe(P)
        root = P.pre.at(P.globalptr("root_pe"), None, I32)
        P.requires(0 <= root, root < npes)
        ghost0(P, phase=iv(0), nsent=iv(0))
        f = lambda n: P.pre.at(P.field(dom, n), None, I32)
        isl, iel, jsl, jel = [P.pre.at(P.field(dom, n), None, PTR) for n in ("isclist", "ieclist", "jsclist", "jeclist")]
        for l in (isl, iel, jsl, jel):
            P.length(l, npes)
            P.elem(l, I32)
        IS, IE, JS, JE = [(lambda p, l=l: P.pre.at(l, p, I32)) for l in (isl, iel, jsl, jel)]
        ish, jsh = z3.Ints("ish jsh")
        hx, hy = z3.Ints("hx hy")
        nxc, nyc = f("nxc"), f("nyc")
        P.requires(0 <= ish, ish <= 1, 0 <= jsh, jsh <= 1, Or(And(hx == 0, hy == 0), And(hx >= 1, hy >= 1)))
        P.requires(nxc >= 1, nyc >= 1, f("isc") == IS(pe), f("iec") == IE(pe), f("jsc") == JS(pe), f("jec") == JE(pe),
                   nxc == IE(pe) - IS(pe) + 1, nyc == JE(pe) - JS(pe) + 1, f("isd") == f("isc") - hx, f("jsd") == f("jsc") - hy,
                   f("nxd") == nxc + 2 * hx, f("nyd") == nyc + 2 * hy)
        ondata = z3.Bool("ondata")
        P.requires(Implies(ondata, hx >= 1))
        P.requires(sx == If(ondata, f("nxd"), nxc) + ish, sy == If(ondata, f("nyd"), nyc) + jsh, nz >= 1)
        p_ = z3.Int("p_")
        P.requires(forall([p_], Implies(And(0 <= p_, p_ < npes), And(IS(p_) >= 0, JS(p_) >= 0, IE(p_) < f("nxg"), JE(p_) < f("nyg"),
                                                                  IE(p_) >= IS(p_), JE(p_) >= JS(p_))), [IS(p_), IE(p_), JS(p_), JE(p_)]))
        nxg, nyg = f("nxg") + ish, f("nyg") + jsh
        no_error_exit(P)
        k0 = P.ghost("k") if threeD else iv(0)
        j0, i0, p0 = P.ghost("j"), P.ghost("i"), P.ghost("p")
        P.requires(0 <= k0, k0 < nz, 0 <= p0, p0 < npes)

        def cov(p, j=j0, i=i0):
            return And(IS(p) <= i, i <= IE(p) + ish, JS(p) <= j, j <= JE(p) + jsh)
        P.requires(cov(p0))
        P.requires(forall([p_], Implies(And(p_ > p0, p_ < npes), Not(cov(p_))), [IS(p_), IE(p_), JS(p_), JE(p_)]))
        w0 = IE(p0) - IS(p0) + 1 + ish
        h0 = JE(p0) - JS(p0) + 1 + jsh
        flat = lambda k, j, i: k * nxg * nyg + j * nxg + i if threeD else j * nxg + i
        if threeD:
            gcell = (k0 * nyg + j0) * nxg + i0
        else:
            gcell = j0 * nxg + i0
        # own local position of the ghost cell (when this processor covers it)
        sw, shh = sx, sy

        def lpos(k, j, i):
            r = If(ondata, (j - f("jsd")) * sx + (i - f("isd")), (j - f("jsc")) * sx + (i - f("isc")))
            return k * sx * sy + r if threeD else r
        wn, hn = nxc + ish, nyc + jsh
        P.length(gd, nxg * nyg * nz if threeD else nxg * nyg)
        P.length(ld, sx * sy * nz if threeD else sx * sy)

        def lemmas(j, i, k=None):
            """valid arithmetic facts on row-major positions (used as hints; each is proved as a lemma obligation)"""
            return []

        sentval = lambda k, j, i: P.pre.at(ld, lpos(k, j, i), ty)
        if mode == "root":
            P.requires(pe == root)
        elif mode == "other":
            P.requires(pe != root)
        elif mode == "all":
            P.requires(Implies(npes == 1, And(IS(pe) == 0, JS(pe) == 0, IE(pe) == f("nxg") - 1, JE(pe) == f("nyg") - 1)))
        own = And(cov(pe))
        rpos = (j0 - JS(p0)) * w0 + (i0 - IS(p0))
        if threeD:
            rpos = (k0 * h0 + (j0 - JS(p0))) * w0 + (i0 - IS(p0))

        def value():
            if mode == "all":
                return If(npes == 1, sentval(k0, j0, i0), R(iv(0), p0, rpos))
            return If(p0 == pe, sentval(k0, j0, i0), R(iv(0), p0, rpos))

        # the message sent: right size, right receiver, right content for the ghost cell of this processor
        def on_send(ctx, t, buf, size, to):
            if mode == "root":
                ctx.require("root sends nothing", z3.BoolVal(False))
                return
            ctx.require("message size", size == (wn * hn * nz if threeD else wn * hn))
            if mode == "other":
                ctx.require("message goes to the root", to == root)
            pos = (j0 - JS(pe)) * wn + (i0 - IS(pe))
            if threeD:
                pos = (k0 * hn + (j0 - JS(pe))) * wn + (i0 - IS(pe))
            ctx.require("message content", Implies(own, ctx.at(buf, pos, t) == sentval(k0, j0, i0)))
        P.eng.on_send = on_send

        def on_recv(ctx, t, buf, size, p):
            n = (IE(p) - IS(p) + 1 + ish) * (JE(p) - JS(p) + 1 + jsh)
            ctx.require("receive size", size == (n * nz if threeD else n))
        P.eng.on_recv = on_recv

        def has(L, n):
            try:
                return L[n]
            except Exception:
                return None

        G = lambda L: L.at(gd, gcell, ty)

        def inv_p(L):
            p = L["p"]
            r = [("range", And(0 <= p, p <= npes)), ("phase", L.st.mem[("ghost_phase", (), I64)] == 0)]
            r.append(("cell", Implies(p > p0, G(L) == value())))
            return r

        def order(L, k, j, i, with_i):
            """ghost cell already passed in the nest, in (k,j,i) order relative to start"""
            d = Or(j0 < j, And(j0 == j, i0 < i)) if with_i else j0 < j
            if threeD:
                d = Or(k0 < k, And(k0 == k, d))
            return d

        def npos(k, j, i, js, is_, w, h):
            r = (j - js) * w + (i - is_)
            return (k * h + (j - js)) * w + (i - is_) if threeD else r

        def nest(kind, level):
            """kind: 'fill' send buffer; 'own' root copies its own data; 'recv' unpacks"""
            def inv(L):
                k = L["k"] if threeD else iv(0)
                j = L["j"]
                i = L["i"]
                if kind == "recv":
                    p = L["p"]
                    js, is_, w, h = JS(p), IS(p), IE(p) - IS(p) + 1 + ish, JE(p) - JS(p) + 1 + jsh
                else:
                    p = pe
                    js, is_, w, h = f("jsc"), f("isc"), wn, hn
                if level == 0:
                    j, i = js, is_
                elif level == 1:
                    i = is_
                out = []
                out.append(("range", And(k >= 0, k <= nz, Implies(iv(level) > 0, k < nz), j >= js, j <= js + h, Implies(iv(level) > 1, j < js + h), i >= is_, i <= is_ + w)))
                if kind == "recv" or kind == "own":
                    out.append(("p", And(0 <= L["p"], L["p"] < npes, Implies(iv(1 if kind == "own" else 0) == 1, L["p"] == root))))
                if kind != "own2":
                    out.append(("n", L["n"] == npos(k, j, i, js, is_, w, h)))
                done = order(L, k, j, i, True)
                if kind == "fill":
                    pos = npos(k0, j0, i0, js, is_, w, h)
                    sb = L["send_buffer"]
                    out.append(("filled", Implies(And(own, done), L.at(sb, pos, ty) == sentval(k0, j0, i0))))
                else:
                    out.append(("kept", Implies(p > p0, G(L) == value())))
                    out.append(("filled", Implies(And(p == p0, done), G(L) == value())))
                out.append(("phase", L.st.mem[("ghost_phase", (), I64)] == 0))
                return out
            return inv

        def flat(dst):
            def inv(L):
                q0 = npos(k0, j0, i0, f("jsc"), f("isc"), wn, hn)
                tgt = L.at(gd, gcell, ty) if dst == "g" else L.at(L["send_buffer"], q0, ty)
                return [("i", And(0 <= L["i"], L["i"] <= wn * hn)), ("filled", Implies(And(own, q0 < L["i"]), tgt == sentval(k0, j0, i0))),
                        ("phase", L.st.mem[("ghost_phase", (), I64)] == 0)]
            return inv

        def one(level):
            def inv(L):
                j, i = L["j"], (L["i"] if level == 2 else f("isc"))
                js, is_ = f("jsc"), f("isc")
                return [("range", And(j >= js, j <= js + hn, Implies(iv(level) > 1, j < js + hn), i >= is_, i <= is_ + wn)),
                        ("n", L["n"] == npos(iv(0), j, i, js, is_, wn, hn)),
                        ("filled", Implies(And(own, order(L, iv(0), j, i, True)), G(L) == sentval(k0, j0, i0))),
                        ("phase", L.st.mem[("ghost_phase", (), I64)] == 0)]
            return inv

        def sendp(L):
            sb = L["send_buffer"]
            q0 = npos(k0, j0, i0, f("jsc"), f("isc"), wn, hn)
            return [("p", And(0 <= L["p"], L["p"] <= npes)), ("phase", L.st.mem[("ghost_phase", (), I64)] == 0),
                    ("nsent", L.st.mem[("ghost_nsent", (), I64)] == L["p"])]
        nests = LOOPS[func]
        n = 0
        for item in nests:
            if item == "p":
                P.loop(n, inv=inv_p)
                n += 1
            elif item == "sendp":
                P.loop(n, inv=sendp)
                n += 1
            elif item[0] == "flat":
                P.loop(n, inv=flat(item[1]))
                n += 1
            elif item == "one":
                for lv in (1, 2):
                    P.loop(n, inv=one(lv))
                    n += 1
            else:
                kind, depth = item
                for lv in range(3 - depth, 3):
                    P.loop(n, inv=nest(kind, lv))
                    n += 1
        P.run()
        if mode in ("root", "all"):
            P.ensures("assembled cell", P.post.at(gd, gcell, ty) == value())
        if mode == "all":
            P.ensures("every processor gets a message", Implies(npes > 1, P.final.mem[("ghost_nsent", (), I64)] == npes))
        if mode == "other":
            P.ensures("exactly one message", P.final.mem[("ghost_nsent", (), I64)] == 1)
            P.ensures("nothing written", P.post.at(gd, gcell, ty) == P.pre.at(gd, gcell, ty))
        return P
    return b


SZ = z3.Function("listsize", z3.IntSort(), z3.IntSort())
OFF = z3.Function("listoffset", z3.IntSort(), z3.IntSort())


def gather(func, ty, mode):
    """mode: 'all' every processor gets the list, 'root' on the root, 'other' on the others"""
    def b():
        P = Proof(DOM, func, contracts=dict(CON), timeout=30)
        lsize, ld, gd = P.args
        R = R_D if ty == F64 else R_I
        P.elem(ld, ty)
        P.elem(gd, ty)
        pe, npes = setup_pe(P)
        root = P.pre.at(P.globalptr("root_pe"), None, I32)
        P.requires(0 <= root, root < npes)
        ghost0(P, phase=iv(0), nsent=iv(0), s0=iv(0), s1=iv(0))
        p_, q_ = z3.Ints("p_ q_")
        p0, k0, t0 = P.ghost("p"), P.ghost("k"), P.ghost("t")
        P.requires(lsize >= 0, SZ(pe) == lsize, OFF(0) == 0)
        P.requires(forall([p_], Implies(And(0 <= p_, p_ < npes), And(SZ(p_) >= 0, OFF(p_ + 1) == OFF(p_) + SZ(p_))), [OFF(p_)]))
        P.requires(forall([p_], Implies(And(0 <= p_, p_ < npes), And(SZ(p_) >= 0, Implies(p_ != pe, R_I(0, p_, 0) == SZ(p_)))), [SZ(p_)]))
        P.requires(forall([p_], Implies(And(0 <= p_, p_ < npes, p_ != pe), R_I(0, p_, 0) == SZ(p_)), [R_I(0, p_, 0)]))
        # prefix sums are monotone (follows by induction from the recurrence above)
        P.requires(forall([p_, q_], Implies(And(0 <= p_, p_ < q_, q_ <= npes), OFF(p_) + SZ(p_) <= OFF(q_)), [OFF(p_), OFF(q_)]))
        P.requires(0 <= p0, p0 < npes, 0 <= k0, k0 < SZ(p0), 0 <= t0, t0 < npes)
        P.length(gd, OFF(npes))
        P.length(ld, lsize)
        if mode == "root":
            P.requires(pe == root)
        if mode == "other":
            P.requires(pe != root)
        no_error_exit(P)
        value = If(p0 == pe, P.pre.at(ld, k0, ty), R(1, p0, k0))
        cell = OFF(p0) + k0
        gh = lambda st, n: st.mem[("ghost_" + n, (), I64)]

        def on_send(ctx, t, buf, size, to):
            ph = ctx.ghost("phase")
            if mode == "root":
                ctx.require("root sends nothing", z3.BoolVal(False))
                return
            ctx.require("receiver", to == root if mode == "other" else And(0 <= to, to < npes, to != pe))
            ctx.require("two phases", And(0 <= ph, ph <= 1))
            if t == I32:
                ctx.require("size message", Implies(ph == 0, And(size == 1, ctx.at(buf, 0, t) == lsize)))
            if t == ty:
                # the ghost element k0 of the ghost processor p0 (any element when p0 is this processor)
                ctx.require("data message", Implies(ph == 1, And(size == lsize, lsize > 0, Implies(p0 == pe, ctx.at(buf, k0, t) == P.pre.at(ld, k0, ty)))))
            if t != ty:
                ctx.require("sizes travel first", ph == 0)
            if t != I32:
                ctx.require("data travels second", ph == 1)
            for k in (0, 1):
                ctx.set_ghost("s%d" % k, If(And(ph == k, to == t0), ctx.ghost("s%d" % k) + 1, ctx.ghost("s%d" % k)))
        P.eng.on_send = on_send

        def on_recv(ctx, t, buf, size, p):
            ph = ctx.ghost("phase")
            ctx.require("receive size", And(Implies(ph == 0, size == 1), Implies(ph == 1, And(size == SZ(p), size > 0)), 0 <= ph, ph <= 1, p != pe))
        P.eng.on_recv = on_recv

        def cnt(L, k):
            p = L["p"]
            return gh(L.st, "s%d" % k) == If(And(t0 != pe, t0 < p, Or(iv(k) == 0, lsize > 0)), 1, 0)

        def inv_send(k):
            def inv(L):
                r = [("phase", gh(L.st, "phase") == k), ("sent", cnt(L, k))]
                r += sizes(L, npes) if k else []
                r += [("s0", gh(L.st, "s0") == If(t0 != pe, 1, 0))] if k else [("s1", gh(L.st, "s1") == 0)]
                return r
            return inv

        def sizes(L, hi):
            rs = L["rsize"]
            x = z3.Int("x_")
            v = lambda x: L.at(rs, x, I32)
            return [("sizes", forall([x], Implies(And(0 <= x, x < hi, x != pe), v(x) == SZ(x)), [v(x)]))]

        def stat(L):
            return [("s0", gh(L.st, "s0") == (If(t0 != pe, 1, 0) if mode == "all" else 0))]

        def inv_rs(L):
            return [("phase", gh(L.st, "phase") == 0), ("s1", gh(L.st, "s1") == 0)] + stat(L) + sizes(L, L["p"])

        def stat2(L):
            return stat(L) + [("s1", gh(L.st, "s1") == (If(And(t0 != pe, lsize > 0), 1, 0) if mode == "all" else 0))]

        def buf(L):
            sz = 8 if ty == F64 else 4
            return [("buffer", And(L["cur_size"] >= 0, L.bytes("rbuffer") >= sz * L["cur_size"]))] if mode == "root" else []

        def inv_p(L):
            p = L["p"]
            return [("phase", gh(L.st, "phase") == 1), ("offset", L["n"] == OFF(p)), ("range", And(0 <= p, p <= npes)),
                    ("cell", Implies(p > p0, L.at(gd, cell, ty) == value))] + sizes(L, npes) + stat2(L) + buf(L)

        def inv_i(L):
            p, i = L["p"], L["i"]
            return [("phase", gh(L.st, "phase") == 1), ("offset", L["n"] == OFF(p) + i), ("range", And(0 <= p, p < npes, 0 <= i, i <= SZ(p))),
                    ("kept", Implies(p > p0, L.at(gd, cell, ty) == value)),
                    ("filled", Implies(And(p == p0, k0 < i), L.at(gd, cell, ty) == value))] + sizes(L, npes) + stat2(L) + buf(L)
        if mode == "all":
            loops = [inv_send(0), inv_rs, inv_send(1), inv_p, inv_i, inv_i]
        elif mode == "root":
            loops = [inv_rs, inv_p, inv_i, inv_i]
        else:
            loops = []
        for n, l in enumerate(loops):
            P.loop(n, inv=l, buffers=("rbuffer",) if mode == "root" else ())
        P.run()
        m = lambda n: P.final.mem[("ghost_" + n, (), I64)]
        if mode != "other":
            P.ensures("gathered element", P.post.at(gd, cell, ty) == value)
        if mode == "all":
            P.ensures("every other processor gets the size once", m("s0") == If(t0 != pe, 1, 0))
            P.ensures("every other processor gets the data once", m("s1") == If(And(t0 != pe, lsize > 0), 1, 0))
        if mode == "other":
            P.ensures("one size message", m("s0") == If(t0 == root, 1, 0))
            P.ensures("one data message", m("s1") == If(And(t0 == root, lsize > 0), 1, 0))
        return P
    return b


LOOPS = {
    "mpp_global_field_double": [("fill", 2), "p", ("own", 2), ("own2", 2), ("recv", 2)],
    "mpp_global_field_int": [("fill", 2), "p", ("own", 2), ("own2", 2), ("recv", 2)],
    "mpp_global_field_all_double": [("flat", "g"), ("flat", "s"), "one", ("fill", 2), "sendp", "p", ("recv", 2)],
    "mpp_global_field_double_3D": [("fill", 3), "p", ("own", 3), ("own2", 3), ("recv", 3)],
}


def proofs(tier):
    L = [("mpp_get_shift", p_shift), ("mpp_get_shift (refusal)", p_shift_err)]
    for fn, ty in (("mpp_global_field_double", F64), ("mpp_global_field_int", I32), ("mpp_global_field_double_3D", F64)):
        for m in ("root", "other"):
            L.append((fn + " on " + m, field(fn, ty, m, "3D" in fn)))
    L.append(("mpp_global_field_all_double", field("mpp_global_field_all_double", F64, "all")))
    for fn, ty in (("mpp_gather_field_int", I32), ("mpp_gather_field_double", F64)):
        L.append((fn, gather(fn, ty, "all")))
        for m in ("root", "other"):
            L.append((fn + "_root on " + m, gather(fn + "_root", ty, m)))
    return L


def search(S):
    from engine.search import link, fenced
    so = link("libdom.so", fenced([DOM, "/verif/harness/domain_glue.c"]), shared=True)
    lib = ctypes.CDLL(so)
    names = ["global_field_all_double", "global_field_double", "global_field_int", "global_field_double_3D", "gather_field_int", "gather_field_double",
             "gather_field_int_root", "gather_field_double_root"]

    def run(c):
        mode, nx, ny, nz, lx, ly, halo, ish, jsh, root, sizes = c
        det = (ctypes.c_int * 8)()
        sz = (ctypes.c_int * 64)(*sizes)
        r = lib.h_gather(mode, nx, ny, nz, lx, ly, halo, ish, jsh, root, sz, det)
        if r:
            return "%s: code %d detail %s (1 wrong value, 2 write outside, 3 write on a non-receiving processor, 71 refused, 76 message size, 1000+ signal) for %s" % (
                names[mode], r, list(det), c)

    def gen(r, k):
        mode = r.randrange(8)
        nx, ny = r.randint(1, 9), r.randint(1, 9)
        lx, ly = r.randint(1, min(3, nx)), r.randint(1, min(3, ny))
        n = lx * ly
        halo = r.choice([0, 0, 1, 2, 3])
        return (mode, nx, ny, r.randint(1, 3), lx, ly, halo, r.randint(0, 1), r.randint(0, 1), r.randrange(n),
                [r.choice([0, r.randint(0, 6), 1]) for _ in range(n)])

    first = [(m, 5, 4, 2, lx, ly, h, a, b, lx * ly - 1, [(3 * q + 2) % 5 for q in range(lx * ly)])
             for m in range(8) for lx, ly in ((1, 1), (2, 1), (1, 2), (2, 2)) for h in (0, 1) for a in (0, 1) for b in (0, 1) if m < 4 or (a, b, h) == (0, 0, 0)]
    first += [(m, 5, 4, 2, 2, 2, 0, 0, 0, 1, [0, 4, 0, 2]) for m in range(4, 8)]
    S.parallel("gather", gen, run, S.secs(8), first=first,
               rule="simulated processors (one OS process each) on random grids up to 9x9x3, layouts up to 3x3, halos 0-3, staggered sizes, any root, list sizes incl. 0")

    S.samples = [{"mode": names[c[0]], "grid": c[1:4], "layout": c[4:6]} for c in first[:3]]
