"""C03: mppncscatter splits a file into pieces that hold exactly their block"""
import os
import shutil
import subprocess
import numpy as np
import z3
from z3 import Implies, If, Or, Not
from .common import *
from .c01 import extent_loop, extent_post, extent_oracle

SCX = ()
SC = "src/mpp-ncscatter/mppncscatter.c"
SCSRC = ["src/mpp-ncscatter/%s.c" % n for n in ("mppncscatter", "main", "opt", "scatterdim", "strlist", "xmalloc")]


ASSUMPTIONS = [
    "ceil((float)(imax-iss+1.0)/(ndmax-ndiv)) is the exact ceiling (true in single precision for dimensions below 2^24 points)",
    "get_scatter_extents_iolayout is proved for one dimension; that the dimensions do not influence each other is covered by the stand-in",
    "get_scatter_dims, def_dim, def_var, put_var and the option parser (NetCDF calls and strings) are covered by the bounded stand-in on the real program",
]
I16, F32 = ("i", 16), ("f32",)
SI64 = I64


def p_extent():
    P = Proof(SC, "mpp_compute_extent", extra=SCX)
    P.eng.exact32 = True
    isg, ieg, nd, ib, ie = P.args
    npts = ieg + 1
    P.requires(isg == 0, nd >= 1, npts >= nd)
    for p in (ib, ie):
        P.length(p, nd)
        P.elem(p, I64)
    extent_loop(P, npts, nd, ib, ie, start="iss", bounds=False)
    P.run()
    extent_post(P, npts, nd, ib, ie)
    return P


def c_extent_sc(c):
    """contract of mppncscatter's mpp_compute_extent (proved above)"""
    isg, ieg, nd, ib, ie = c.args
    c.require("0<=isg, 1<=ndivs<=npts", And(isg == 0, nd >= 1, ieg + 1 >= nd))
    fs = []
    for p in (ib, ie):
        nb = c.eng.mkbase(freshname("extent"), len(p.idx), I64)
        lo = p.idx
        c.bulk(p, I64, lambda *ix, lo=lo: And(*[x == y for x, y in zip(ix[:-1], lo[:-1])], ix[-1] >= lo[-1], ix[-1] < lo[-1] + nd), lambda *ix, nb=nb: nb.read(ix))
        fs.append(lambda k, nb=nb, lo=lo: nb.read(lo[:-1] + (simp(lo[-1] + k),)))
    B, E = fs
    j = z3.Int("j")
    c.assume_all(And(B(iv(0)) == 0, E(nd - 1) == ieg))
    c.assume_all(forall([j], Implies(And(0 <= j, j < nd - 1), B(j + 1) == E(j) + 1), [E(j)]))
    c.assume_all(forall([j], Implies(And(0 < j, j < nd), B(j) == E(j - 1) + 1), [B(j)]))
    c.assume_all(forall([j], Implies(And(0 <= j, j < nd), And(E(j) >= B(j), B(j) >= 0, E(j) <= ieg)), [E(j), B(j)]))


def sdim(P, view, dims, d):
    """fields of scatterdims[d]"""
    p = view.at(dims, d, PTR)
    p.region.ety = ("struct", "struct.ScatterDimStruct")
    f = lambda n, ty: view.at(P.field(p, n), None, ty)
    return p, f


def p_extents():
    P = Proof(SC, "get_scatter_extents", contracts={"mpp_compute_extent": c_extent_sc}, extra=SCX)
    dims, nd = P.args
    P.elem(dims, PTR)
    d0, k = P.ghost("d"), P.ghost("k")
    P.requires(0 <= d0, d0 < nd)
    q = z3.Int("q")

    def fld(view, d):
        p, f = sdim(P, view, dims, d)
        return f
    f0 = fld(P.pre, q)
    P.requires(forall([q], Implies(And(0 <= q, q < nd, f0("scatter_type", I32) != 0), And(f0("scatter_ndiv", I64) >= 1, f0("len", I64) >= f0("scatter_ndiv", I64))),
                      [f0("scatter_ndiv", I64)]))
    g = fld(P.pre, d0)
    n0, l0 = g("scatter_ndiv", I64), g("len", I64)
    P.requires(0 <= k, k < n0, n0 >= 1)

    def ok(view):
        f = fld(view, d0)
        st, en, ln = (f(x, PTR) for x in ("scatter_start", "scatter_end", "scatter_len"))
        a = lambda p, x: view.at(p, x, I64)
        return And(a(st, 0) == 0, a(en, n0 - 1) == l0 - 1, Implies(k + 1 < n0, a(st, k + 1) == a(en, k) + 1), a(en, k) >= a(st, k), a(en, k) < l0, a(st, k) >= 0), a(ln, k) == a(en, k) - a(st, k) + 1
    sc = g("scatter_type", I32) != 0
    P.requires(Not(P.eng.isnull(P.pre.at(dims, d0, PTR))))
    for x in ("scatter_start", "scatter_end", "scatter_len"):
        P.length(g(x, PTR), lambda *pre: fld(P.pre, pre[0])("scatter_ndiv", I64))

    P.loop(0, inv=lambda L: [("extents", Implies(And(d0 < L["i"], sc), And(*ok(L))))])
    P.loop(1, inv=lambda L: [("extents", Implies(And(d0 < L["i"], sc), And(*ok(L)))), ("this", Implies(And(d0 == L["i"], sc), ok(L)[0])),
                             ("len", Implies(And(d0 == L["i"], sc, k < L["j"]), ok(L)[1]))])
    P.run()
    P.ensures("scattered dimension: pieces tile it in order, start at 0, end at the last point", Implies(sc, ok(P.post)[0]))
    P.ensures("piece length is end-start+1", Implies(sc, ok(P.post)[1]))
    return P


def p_iolayout():
    P = Proof(SC, "get_scatter_extents_iolayout", extra=SCX, modules=["src/mpp-ncscatter/xmalloc.c"])
    # one dimension: blocks allocated and stored in a loop are outside the memory model, so the loop over dimensions is taken once
    P.args[1] = iv(1)
    dims, nd, nxio, nyio = P.args
    P.elem(dims, PTR)
    d0, k = P.ghost("d"), P.ghost("k")
    P.requires(0 <= d0, d0 < nd, nxio >= 1, nyio >= 1)
    q = z3.Int("q")

    def fld(view, d):
        p, f = sdim(P, view, dims, d)
        return f
    stepf = z3.Function("stepf", z3.IntSort(), z3.IntSort())
    f0 = fld(P.pre, q)
    io = lambda f: If(f("scatter_type", I32) == 1, nxio, nyio)
    # main() refuses divisions that the io layout does not divide: ndiv = step*ndivio
    P.requires(forall([q], Implies(And(0 <= q, q < nd, f0("scatter_type", I32) != 0), And(stepf(q) >= 1, f0("scatter_ndiv", I64) == stepf(q) * io(f0))),
                      [f0("scatter_ndiv", I64)]))
    g = fld(P.pre, d0)
    P.requires(Not(P.eng.isnull(P.pre.at(dims, d0, PTR))))
    n0 = io(g)
    step = stepf(d0)
    sc = g("scatter_type", I32) != 0
    P.requires(0 <= k, k < n0)
    S0 = lambda x: P.pre.at(g("scatter_start", PTR), x, I64)
    E0 = lambda x: P.pre.at(g("scatter_end", PTR), x, I64)
    for x in ("scatter_start", "scatter_end", "scatter_len"):
        P.length(g(x, PTR), lambda *pre: fld(P.pre, pre[0])("scatter_ndiv", I64))

    def ok(view):
        f = fld(view, d0)
        st, en, ln = (f(x, PTR) for x in ("scatter_start", "scatter_end", "scatter_len"))
        a = lambda p: view.at(p, k, I64)
        return And(f("scatter_ndiv", I64) == n0, a(st) == S0(k * step), a(en) == E0(k * step + step - 1), a(ln) == a(en) - a(st) + 1)

    def same(view):
        f = fld(view, d0)
        return And(f("scatter_ndiv", I64) == g("scatter_ndiv", I64), f("scatter_type", I32) == g("scatter_type", I32))

    def done(L):
        a = lambda p: L.at(L[p], k, I64)
        return And(a("startio") == S0(k * step), a("endio") == E0(k * step + step - 1), a("lenio") == a("endio") - a("startio") + 1)
    P.loop(0, unroll=1)
    P.loop(1, inv=lambda L: [("k", And(L["k"] >= 0, L["i"] == L["k"] * L["step"], L["k"] <= L["ndivio"])),
                             ("this", Implies(And(d0 == L["d"], sc, k < L["k"]), done(L)))])
    P.run()
    P.ensures("io piece k runs from the start of its first to the end of its last division", Implies(sc, ok(P.post)))
    return P


def p_numdivs():
    P = Proof(SC, "get_num_divs", extra=SCX)
    o, nx, ny = P.args
    P.struct(o, "MNSOPTS")
    P.run()
    f = lambda n: P.pre.at(P.field(o, n), None, I32)
    io = And(f("nxio") != 0, f("nyio") != 0)
    P.ensures("number of pieces in x and y", And(P.post.at(nx, None, I32) == If(io, f("nxio"), f("nx")), P.post.at(ny, None, I32) == If(io, f("nyio"), f("ny"))))
    return P


def p_hyper(ndim, tcode, ety):
    def b():
        P = Proof(SC, "hyperslabcopy", extra=SCX)
        names = [a for a in P.a]
        typ, dimlen, dimids, start, count, nd = P.args[:6]
        P.args[0], P.args[5] = iv(tcode), iv(ndim)
        k = {1: 0, 2: 0, 3: 1, 4: 2, 5: 3, 6: 4}[tcode]
        src, dst = P.args[6 + k], P.args[11 + k]
        for p, t in ((dimlen, I64), (start, I64), (count, I64), (dimids, I32), (src, ety), (dst, ety)):
            P.elem(p, t)
        ids = [P.pre.at(dimids, n) for n in range(ndim)]
        D = [P.pre.at(dimlen, i) for i in ids]
        S = [P.pre.at(start, n) for n in range(ndim)]
        C = [P.pre.at(count, n) for n in range(ndim)]
        for p in (start, count, dimids):
            P.length(p, max(ndim, 1))
        for d, s_, c_ in zip(D, S, C):
            P.requires(s_ >= 0, c_ >= 1, s_ + c_ <= d)
        g = [P.ghost("c%d" % n) for n in range(ndim)]
        for x, c_ in zip(g, C):
            P.requires(0 <= x, x < c_)

        def ravel(ix, ln):
            r = iv(0)
            for x, l in zip(ix, ln):
                r = r * l + x
            return simp(r)
        t_dst = ravel(g, C)
        t_src = ravel([x + s_ for x, s_ in zip(g, S)], D)

        def cell(L):
            return L.at(dst, t_dst) == P.pre.at(src, t_src)
        # loops run over all dimensions but the last
        cv = {1: [], 2: ["k"], 3: ["k", "j"], 4: ["m", "k", "j"], 0: []}[ndim]

        def inv(depth):
            def f(L):
                vs = [L[v] for v in cv[:depth + 1]]
                off = ravel(vs, C[:depth + 1])
                for c_ in C[depth + 1:]:
                    off = off * c_
                done = z3.BoolVal(False)
                for n in range(depth + 1):
                    done = Or(done, And(*[g[q] == vs[q] for q in range(n)], g[n] < vs[n]))
                out = [("range", And(*[And(0 <= v, v <= C[q]) for q, v in enumerate(vs)], *[v < C[q] for q, v in enumerate(vs[:-1])])), ("offset", L["offset"] == off)]
                out.append(("cell", Implies(done, cell(L))))
                return out
            return f
        for n in range(len(cv)):
            P.loop(n, inv=inv(n))
        if ndim == 4:  # the five copies of the two inner loops are numbered in turn
            for n in range(1, 11):
                P.loop(n, inv=inv(1 + (n - 1) % 2))
        P.run()
        P.ensures("piece element equals the element of the whole variable at start+index", cell(P.post))
        P.label = "hyperslabcopy ndim=%d type=%d" % (ndim, tcode)
        return P
    return b


def proofs(tier):
    out = [("mpp_compute_extent", p_extent), ("get_scatter_extents", p_extents), ("get_num_divs", p_numdivs),
           ("get_scatter_extents_iolayout", p_iolayout)]
    for nd in range(5):
        for tc, ety in ((1, I8), (2, I8), (3, I16), (4, I32), (5, F32), (6, F64)):
            out.append(("hyperslabcopy ndim=%d type=%d" % (nd, tc), p_hyper(nd, tc, ety)))
    return out


# ------------------------------------------------------------------ bounded stand-in
def extents(n, d):
    """independent computation of the symmetric decomposition (recursive)"""
    sym = (d % 2 == 0 and n % 2 == 0) or (d % 2 == 1 and n % 2 == 1) or (d % 2 == 1 and n % 2 == 0 and d < n // 2)
    size = [0] * d
    lo, hi, left = 0, n, d
    if sym:
        k = 0
        while left > 1:
            s = -(-(hi - lo) // left)
            size[k] = size[d - 1 - k] = s
            lo, hi, left, k = lo + s, hi - s, left - 2, k + 1
        if left == 1:
            size[k] = hi - lo
    else:
        for k in range(d):
            size[k] = -(-(n - lo) // (d - k))
            lo += size[k]
    st = [sum(size[:k]) for k in range(d)]
    return st, size


UNITS_X = ["degrees_east", "degree_E", "degrees_E", "degreeE", "degreesE", "Degree_East"]
UNITS_Y = ["degrees_north", "degree_N", "degrees_N", "degreeN", "degreesN", "Degree_North"]
UNITS_O = ["degrees", "m", "deg", "degrees_true", "1", "days since 2000-01-01"]


def gen_case(r, k):
    ndx, ndy, ndo = r.choice([1, 1, 2]), r.choice([1, 1, 2]), r.randint(0, 2)
    dims = []
    nx, ny = r.randint(1, 4), r.randint(1, 3)
    for n in range(ndx):
        dims.append(["x%d" % n, r.randint(nx, nx + 8), "x", r.choice(["units", "axis", "arg", "units"]), r.choice(UNITS_X)])
    for n in range(ndy):
        dims.append(["y%d" % n, r.randint(ny, ny + 6), "y", r.choice(["units", "axis", "arg", "units"]), r.choice(UNITS_Y)])
    for n in range(ndo):
        dims.append(["o%d" % n, r.randint(1, 4), "o", r.choice(["units", "axis", "none", "novar", "uaxis"]), r.choice(UNITS_O)])
    rec = r.random() < 0.6
    if rec:
        dims.append(["time", None, "o", r.choice(["units", "novar"]), r.choice(UNITS_O)])
    r.shuffle(dims)
    io = None
    if r.random() < 0.35:
        fx = [q for q in range(1, nx + 1) if nx % q == 0]
        fy = [q for q in range(1, ny + 1) if ny % q == 0]
        io = (r.choice(fx), r.choice(fy))
    nvars = r.randint(1, 4)
    vs = []
    names = [d[0] for d in dims if d[1] is not None]
    for n in range(nvars):
        nd = r.randint(0, min(4, len(names)))
        dn = r.sample(names, nd)
        if rec and r.random() < 0.5:
            dn = ["time"] + dn[:3]
        vs.append(["v%d" % n, r.choice("chifd"), dn])
    return dict(dims=dims, vars=vs, nx=nx, ny=ny, io=io, nrec=r.randint(1, 3), start=r.choice([None, None, 1, 7]), width=r.choice([None, None, 2, 6]),
                prefix=r.random() < 0.3, order=r.random() < 0.5, seed=r.randrange(1 << 30), version=r.choice([1, 2]), coordlast=r.random() < 0.4, verbose=r.random() < 0.1)


def make_input(c, path):
    from engine import nc
    rng = np.random.RandomState(c["seed"])
    nrec = c["nrec"]
    ln = {d[0]: (nrec if d[1] is None else d[1]) for d in c["dims"]}
    coord, data = [], []
    for name, l, kind, how, units in c["dims"]:
        if how in ("arg", "novar"):
            continue
        at = {}
        if how in ("units", "uaxis"):
            at["units"] = units
        if how in ("axis", "uaxis"):
            at["cartesian_axis"] = {"x": "X", "y": "Y", "o": "Z"}[kind]
        coord.append((name, "d", (name,), rng.rand(ln[name]), at))
    for name, t, dn in c["vars"]:
        shp = tuple(ln[d] for d in dn)
        n = int(np.prod(shp)) if shp else 1
        a = rng.randint(-100, 100, n)
        if t == "c":
            a = np.array([bytes([65 + (int(v) % 26)]) for v in a], dtype="S1")
        elif t in "fd":
            a = a / 8.0
        elif t in "ih":
            a = a * 50
        a = a.reshape(shp)
        data.append((name, t, tuple(dn), a if shp else a.reshape(()), {"long_name": "var " + name}))
    allv = data + coord if c["coordlast"] else coord + data
    nc.write(path, [(d[0], d[1]) for d in c["dims"]], allv, {"title": "t", "n": 3}, c["version"])
    return {v[0]: v for v in allv}, ln


def run_case(c, exe, base):
    from engine import nc
    d = os.path.join(base, "w%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(os.path.join(d, "out"))
    want, ln = make_input(c, os.path.join(d, "in.nc"))
    cmd = [exe, "-x", str(c["nx"]), "-y", str(c["ny"])]
    opts = []
    if c["start"] is not None:
        opts.append(["-s", str(c["start"])])
    if c["width"] is not None:
        opts.append(["-w", str(c["width"])])
    if c["prefix"]:
        opts.append(["-p", "out"])
    if c["io"]:
        opts.append(["-i", str(c["io"][0]), "-j", str(c["io"][1])])
    if c["verbose"]:
        opts.append(["-V"])
    for kind, flag in (("x", "-X"), ("y", "-Y")):
        l = [q[0] for q in c["dims"] if q[2] == kind and q[3] == "arg"]
        if l:
            opts.append([flag, ",".join(l)])
    if c["order"]:
        opts.reverse()
    for o in opts:
        cmd += o
    cmd.append("in.nc")
    p = subprocess.run(cmd, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=60)
    desc = "%s on dims %s vars %s records %d" % (" ".join(cmd[1:]), [(q[0], q[1], q[3], q[4]) for q in c["dims"]], c["vars"], c["nrec"])
    if p.returncode:
        return "exit status %d (%s): %s" % (p.returncode, p.stderr[-200:], desc)
    mx, my = c["io"] or (c["nx"], c["ny"])
    kind = {q[0]: q[2] for q in c["dims"]}
    ext = {}
    for q in c["dims"]:
        if q[2] == "o":
            continue
        nd = c["nx"] if q[2] == "x" else c["ny"]
        s, z = extents(q[1], nd)
        m = mx if q[2] == "x" else my
        step = nd // m
        ext[q[0]] = [(s[j * step], sum(z[j * step:(j + 1) * step])) for j in range(m)]
    outdir = os.path.join(d, "out") if c["prefix"] else d
    expect = set()
    for yi in range(my):
        for xi in range(mx):
            fn = "in.nc.%0*d" % (c["width"] or 4, yi * mx + xi + (c["start"] or 0))
            expect.add(fn)
            if not os.path.exists(os.path.join(outdir, fn)):
                return "output %s missing (have %s): %s" % (fn, sorted(os.listdir(outdir)), desc)
            dims, vs, g = nc.read(os.path.join(outdir, fn))
            if set(vs) != set(want) or list(g.get("NumFilesInSet", [])) != [mx * my] or g.get("title") != b"t" or list(g.get("n", [])) != [3]:
                return "header of %s wrong: %s %s: %s" % (fn, list(vs), g, desc)
            blk = {}
            for q in c["dims"]:
                if q[2] == "o":
                    blk[q[0]] = (0, ln[q[0]])
                else:
                    blk[q[0]] = ext[q[0]][xi if q[2] == "x" else yi]
                if (dims[q[0]] or ln[q[0]]) != blk[q[0]][1]:
                    return "dimension %s of %s has length %s, expected %s: %s" % (q[0], fn, dims[q[0]], blk[q[0]][1], desc)
            for name, (nm, t, dn, a, at) in want.items():
                vt, vd, va, vat = vs[name]
                if vd != tuple(dn):
                    return "variable %s of %s has dims %s: %s" % (name, fn, vd, desc)
                sub = a[tuple(slice(blk[x][0], blk[x][0] + blk[x][1]) for x in dn)] if dn else a
                if va.shape != sub.shape or not np.array_equal(va, sub.astype(va.dtype)):
                    return "variable %s %s type %s differs in %s (piece x%d y%d): got %s expected %s: %s" % (
                        name, dn, t, fn, xi, yi, va.ravel()[:8].tolist(), sub.ravel()[:8].tolist(), desc)
                for k, x in at.items():
                    y = vat.get(k)
                    if (y.decode() if isinstance(y, bytes) else y) != x:
                        return "attribute %s of %s is %r in %s: %s" % (k, name, y, fn, desc)
                if dn == (name,) and kind[name] != "o":
                    b = blk[name]
                    if list(vat.get("domain_decomposition", [])) != [1, ln[name], b[0] + 1, b[0] + b[1]]:
                        return "domain_decomposition of %s in %s is %s: %s" % (name, fn, vat.get("domain_decomposition"), desc)
                elif "domain_decomposition" in vat:
                    return "unexpected domain_decomposition on %s: %s" % (name, desc)
    got = {f for f in os.listdir(outdir) if f.startswith("in.nc.")}
    if got != expect:
        return "unexpected outputs %s: %s" % (sorted(got - expect), desc)
    return None


def search(S):
    from engine.search import link, fenced
    from engine.irparse import scratch
    exe = link("mppncscatter", fenced(SCSRC))
    S.parallel("mppncscatter", gen_case, lambda c: run_case(c, exe, scratch()), S.secs(25, 200),
               rule="random files (up to 6 dimensions, 0-4 dimensional variables of all six types, records), division numbers, io layouts, options; pieces compared with numpy slices")
    lib = __import__("ctypes").CDLL(link("libsc.so", fenced([s for s in SCSRC if not s.endswith("main.c")]), shared=True))
    import ctypes

    def run_ext(c):
        n, d = c
        a = (ctypes.c_size_t * (d + 2))(*([777] * (d + 2)))
        b = (ctypes.c_size_t * (d + 2))(*([777] * (d + 2)))
        lib.mpp_compute_extent(ctypes.c_size_t(0), ctypes.c_size_t(n - 1), ctypes.c_size_t(d), ctypes.byref(a, 8), ctypes.byref(b, 8))
        if 777 != a[0] or 777 != b[0] or a[d + 1] != 777 or b[d + 1] != 777:
            return "writes outside the lists for %s" % (c,)
        m = extent_oracle(n, d, a[1:d + 1], b[1:d + 1])
        return None if m is None else "decomposition of %d points into %d: %s" % (n, d, m)

    S.parallel("mppncscatter extents", lambda r, k: (lambda n: (n, r.randint(1, min(n, 400))))(r.choice([r.randint(1, 100), r.randint(1, 5000), r.randint(1, 1000000)])),
               run_ext, S.secs(3), first=[(n, d) for n in range(1, 81) for d in range(1, n + 1)], rule="all sizes up to 80, random up to 1e6 points")
    S.samples = [{"case": "one case", **{k: v for k, v in gen_case(__import__("random").Random(S.seed), 0).items()}}]
