"""C04: mppnccombine puts every decomposed value at its place in the whole"""
import os
import shutil
import subprocess
import numpy as np
import z3
from z3 import Implies, If, Or, Not
from .common import *
from engine.sym import alts

CB = "src/mpp-nccombine/mppnccombine.c"
CBSRC = [CB, "/verif/harness/version_stub.c"]


I16, F32 = ("i", 16), ("f32",)
ASSUMPTIONS = [
    "process_vars is proved for a file with one decomposed variable (that variables do not influence each other is covered by the stand-in) whose piece fits into the whole (dimstart-1+dimsize<=dimfullsize, as written by the model)",
    "ncvarget/ncvarput transfer exactly the hyperslab they are given; nctypelen is the size of the type; ncdimid finds a name among the dimensions",
    "main, process_file and the option parser (NetCDF calls, strings, files) are covered by the bounded stand-in on the real program",
]
TRUSTED = ["contracts assumed for the NetCDF 2 interface: ncvarget, ncvarput, ncdimid, nctypelen"]


def fidx(P, st, name):
    return P.mod.fields["struct." + st].index(name)


def p_vars(nd, tcode, ety, rec, alloc=None):
    """alloc: None = the buffer exists; 0/1 = it is allocated here, without / with a missing value"""
    def b():
        G = z3.Function("piece_value", z3.IntSort(), z3.RealSort() if ety in (F32, F64) else z3.IntSort())
        size = {1: 1, 2: 1, 3: 2, 4: 4, 5: 4, 6: 8}[tcode]
        got = {}

        def c_get(c):
            fid, v, start, cnt, vals = c.args
            vals.region.types.setdefault((), ety)
            n = iv(1)
            for d in range(nd):
                C = c.at(cnt, d, I64)
                n = n * C
                c.require("reads the whole piece in dimension %d" % d, And(C == (iv(1) if rec and d == 0 else DS[d]), c.at(start, d, I64) == (P.a["r"] if rec and d == 0 else iv(0))))
            c.require("buffer holds the piece", vals.region.bytes >= n * size)
            c.bulk(vals, ety, lambda *ix: And(ix[-1] >= 0, ix[-1] < n), lambda *ix: G(ix[-1]))

        def c_typelen(c):
            return iv(size)
        P = Proof(CB, "process_vars", contracts={"ncvarget": c_get, "nctypelen": c_typelen, "ncdimid": lambda c: z3.Int("dimid_of_name"),
                                                 "ncvarput": lambda c: c.require("a decomposed variable is not written piecewise", z3.BoolVal(False))})
        inf, outf = P.a["ncinfile"], P.a["ncoutfile"]
        for x in (inf, outf):
            P.struct(x, "fileinfo")
        names = list(P.a)
        I = P.eng.initial

        def const(p, name, ty, v, n=1):
            I[(p.region.name, (("f", fidx(P, "fileinfo", name)),) + ("a",) * n, ty)] = Base(lambda *ix: iv(v))
        const(inf, "nvars", I32, 1, 0)
        const(inf, "varndims", I32, nd)
        const(inf, "datatype", I32, tcode)
        const(inf, "vardecomp", I8, 1)
        for a, v in (("verbose", 0), ("appendnc", 0), ("missing", 1 if alloc else 0)):
            P.args[names.index(a)] = iv(v)
        for g, v, ty in (("mem_dry_run", 0, None), ("print_mem_usage", 0, None)):
            gp = P.globalptr(g)
            I[(gp.region.name, (), gp.region.ety)] = iv(v)
        if alloc is not None:
            const(outf, "varmiss", I8, alloc)
        r, bf = P.a["r"], P.pre.at(P.a["bf"], None, I32)
        nrecs = P.pre.at(P.a["nrecs"], None, I32)
        vb = P.pre.at(P.globalptr("varbuf"), None, PTR)
        vb.region.nullfn = lambda: z3.BoolVal(False)
        fld = lambda name, ix, ty: P.pre.at(Ptr(inf.region, (("f", fidx(P, "fileinfo", name)),) + ("a",) * len(ix), (iv(0),) + tuple(ix)), None, ty)
        recdim = fld("recdim", (), I32)
        vd = [fld("vardim", (iv(0), iv(d)), I32) for d in range(nd)]
        size_, full, start = (lambda x, n=n: fld(n, (x,), I64) for n in ("dimsize", "dimfullsize", "dimstart"))
        for d in range(nd):
            P.requires(0 <= vd[d], vd[d] < 1024, vd[d] != recdim if not (rec and d == 0) else vd[d] == recdim)
            P.requires(size_(vd[d]) >= 1, start(vd[d]) >= 1, start(vd[d]) - 1 + size_(vd[d]) <= full(vd[d]))
        P.requires(recdim < 1024, recdim >= 0 if rec else recdim >= -1)
        P.requires(nrecs >= 0, bf >= 0, Implies(nrecs != 1, bf >= 1), r >= 0)
        row = P.pre.at(vb, r % bf, PTR)
        cellp = P.pre.at(row, 0, PTR)
        DS = [iv(1) if rec and d == 0 else size_(vd[d]) for d in range(nd)]
        DF = [iv(1) if rec and d == 0 else full(vd[d]) for d in range(nd)]
        OF = [iv(0) if rec and d == 0 else start(vd[d]) - 1 for d in range(nd)]
        if alloc is None:
            cellp.region.nullfn = lambda *ix: z3.BoolVal(False)
            P.elem(cellp, ety)
            P.length(cellp, lambda *ix: z3.Product(*DF) if len(DF) > 1 else DF[0])
        else:
            cellp.region.nullfn = lambda *ix: z3.BoolVal(True)
        g = [iv(0) if rec and d == 0 else P.ghost("c%d" % d) for d in range(nd)]
        h = [iv(0) if rec and d == 0 else P.ghost("h%d" % d) for d in range(nd)]
        for d in range(nd):
            P.requires(0 <= g[d], g[d] < DS[d], 0 <= h[d], h[d] < DF[d])
        P.requires(Or(*[Or(h[d] < OF[d], h[d] >= OF[d] + DS[d]) for d in range(nd)]))

        def ravel(ix, ln):
            t = iv(0)
            for x, l in zip(ix, ln):
                t = t * l + x
            return simp(t)
        to, fro = ravel([x + o for x, o in zip(g, OF)], DF), ravel(g, DS)
        other = ravel(h, DF)

        def buf(L):
            p = L.at(P.globalptr("varbuf"), None, PTR)
            q = L.at(L.at(p, r % L.at(P.a["bf"], None, I32), PTR), 0, PTR)
            for _, x in alts(q):
                x.region.types.setdefault((), ety)
            return q
        miss = lambda L: L.at(Ptr(outf.region, (("f", fidx(P, "fileinfo", "varmissval")), "a", "a"), (iv(0), iv(0), iv(0))), None, ety)

        def cell(L):
            return L.at(buf(L), to, ety) == G(fro)

        def same(L):
            if alloc is None:
                return L.at(buf(L), other, ety) == P.pre.at(P.pre.at(P.pre.at(vb, r % L.at(P.a["bf"], None, I32), PTR), 0, PTR), other, ety)
            return L.at(buf(L), other, ety) == (miss(L) if alloc else 0)
        lv = ["l", "k", "j", "i"]
        S4 = [iv(1)] * (4 - nd) + DS
        g4 = [iv(0)] * (4 - nd) + g

        def inv(depth):
            def f(L):
                vs = [L[v] for v in lv[:depth + 1]]
                done = z3.BoolVal(False)
                for n in range(depth + 1):
                    done = Or(done, And(*[g4[q] == vs[q] for q in range(n)], g4[n] < vs[n]))
                bb = ravel(vs, S4[:depth + 1])
                for s_ in S4[depth + 1:]:
                    bb = bb * s_
                return [("range", And(*[And(0 <= v, v <= S4[q]) for q, v in enumerate(vs)], *[v < S4[q] for q, v in enumerate(vs[:-1])])), ("b", L["b"] == bb),
                        ("cell", Implies(done, cell(L))), ("other", same(L))]
            return f
        P.loop(0, unroll=1)
        P.loop(1, unroll=nd)
        n = 2
        if alloc:
            P.loop(n, inv=lambda L: [("s", And(0 <= L["s"], L["s"] <= ravel([x - 1 for x in DF], DF) + 1)), ("fill", Implies(other < L["s"], same(L)))])
            n += 1
        for q in range(4):
            P.loop(n + q, inv=inv(q))
        P.run()
        dimn = z3.Int("dimid_of_name")
        used = And(P.ret == 0, Or(r == 0, And(dimn == -1, z3.BoolVal(rec))))
        if rec:
            used = And(used, size_(recdim) >= 1)
        P.ensures("every value of the piece is in the whole at its place", Implies(used, cell(P.post)))
        P.ensures("the rest of the whole is unchanged" if alloc is None else "the rest of the new buffer is %s" % ("the missing value" if alloc else "zero"), Implies(used, same(P.post)))
        return P
    return b


def p_flush():
    v0 = z3.Int("g_v")
    d0 = z3.Int("g_d")
    GK = ("ghost_written", (), I64)

    def c_put(c):
        fid, v, start, cnt, vals = c.args
        dd = fld("vardim", (v, d0), I32)
        inr = And(0 <= d0, d0 < fld("varndims", (v,), I32))
        isrec = dd == fld("recdim", (), I32)
        c.require("writes the whole of each dimension, one record of the record dimension", Implies(inr, c.at(cnt, d0, I64) == If(isrec, 1, fld("dimfullsize", (dd,), I64))))
        c.require("starts at the first point, at record r", Implies(inr, c.at(start, d0, I64) == If(isrec, P.a["r"], 0)))
        want = P.pre.at(P.pre.at(vb, P.a["r"] % P.a["bf"], PTR), v, PTR)
        from engine.sym import idx_eq
        c.require("writes the buffer of this variable and record", idx_eq(vals.idx, want.idx) if vals.region is want.region else z3.BoolVal(False))
        c.require("only decomposed variables", fld("vardecomp", (v,), I8) != 0)
        c.set_ghost("written", If(v == v0, c.ghost("written") + 1, c.ghost("written")))
    P = Proof(CB, "flush_decomp", contracts={"ncvarput": c_put})
    out = P.a["ncoutfile"]
    P.struct(out, "fileinfo")
    P.st0.mem[GK] = iv(0)
    fld = lambda name, ix, ty: P.pre.at(Ptr(out.region, (("f", fidx(P, "fileinfo", name)),) + ("a",) * len(ix), (iv(0),) + tuple(ix)), None, ty)
    vb = P.pre.at(P.globalptr("varbuf"), None, PTR)
    P.args[list(P.a).index("verbose")] = iv(0)
    r, bf = P.a["r"], P.a["bf"]
    recdim, nvars = fld("recdim", (), I32), fld("nvars", (), I32)
    a, b, v = z3.Int("qa"), z3.Int("qb"), z3.Int("qv")
    vdim = lambda v, d: fld("vardim", (v, d), I32)
    ndv = lambda v: fld("varndims", (v,), I32)
    P.requires(r >= 0, bf >= 1, nvars <= 8192)
    P.requires(forall([v], And(fld("vardecomp", (v,), I8) >= 0, fld("vardecomp", (v,), I8) <= 1), [fld("vardecomp", (v,), I8)]))
    P.requires(forall([v], And(ndv(v) >= 0, ndv(v) <= 1024), [ndv(v)]))
    P.requires(forall([v, a], And(0 <= vdim(v, a), vdim(v, a) < 1024), [vdim(v, a)]))
    P.requires(forall([v, a, b], Implies(And(0 <= a, a < ndv(v), 0 <= b, b < ndv(v), vdim(v, a) == recdim, vdim(v, b) == recdim), a == b), [vdim(v, a), vdim(v, b)]))
    P.requires(0 <= v0, v0 < nvars)
    hasrec = z3.Int("g_recpos")  # the record dimension of v0, if it has one
    P.requires(Or(hasrec == -1, And(0 <= hasrec, hasrec < ndv(v0), vdim(v0, hasrec) == recdim)),
               Implies(hasrec == -1, forall([a], Implies(And(0 <= a, a < ndv(v0)), vdim(v0, a) != recdim), [vdim(v0, a)])))
    bufnull = P.eng.isnull(P.pre.at(P.pre.at(vb, r % bf, PTR), v0, PTR))
    due = And(fld("vardecomp", (v0,), I8) != 0, If(hasrec == -1, r == 0, Not(bufnull)))
    P.loop(0, inv=lambda L: [("v", And(0 <= L["v"], Or(L["v"] <= nvars, nvars < 0))), ("written", L.st.mem[GK] == If(And(v0 < L["v"], due), 1, 0))])

    def inner(L):
        vv, d = L["v"], L["d"]
        dd = vdim(vv, d0)
        return [("d", And(0 <= d, d <= ndv(vv))), ("count", Implies(And(0 <= d0, d0 < d), L.at(L["count"], d0, I64) == If(dd == recdim, 1, fld("dimfullsize", (dd,), I64)))),
                ("start", Implies(And(0 <= d0, d0 < d), L.at(L["outstart"], d0, I64) == 0)),
                ("rec", Implies(And(0 <= d0, d0 < d, dd == recdim), L["varrecdim"] == d0)),
                ("rec0", Implies(And(v0 == vv, 0 <= hasrec, hasrec < d), L["varrecdim"] == hasrec)),
                ("recdim", Or(L["varrecdim"] == -1, And(0 <= L["varrecdim"], L["varrecdim"] < d, vdim(vv, L["varrecdim"]) == recdim)))]
    P.loop(1, inv=inner)
    P.run()
    P.ensures("every decomposed variable is written exactly once (a static one with the first record)", Implies(P.ret == 0, P.final.mem[GK] == If(due, 1, 0)))
    return P


def proofs(tier):
    out = [("flush_decomp", p_flush)]
    types = ((1, I8), (2, I8), (3, I16), (4, I32), (5, F32), (6, F64))
    for rec in (False, True):
        for nd in range(2 if rec else 1, 5):
            for tc, ety in types:
                out.append(("process_vars %d-D type=%d%s" % (nd, tc, " records" if rec else ""), p_vars(nd, tc, ety, rec)))
                if tc in (1, 6):
                    out.append(("process_vars %d-D type=%d%s new buffer" % (nd, tc, " records" if rec else ""), p_vars(nd, tc, ety, rec, 0)))
                if tc == 1:
                    out.append(("process_vars %d-D type=%d%s new buffer with missing value" % (nd, tc, " records" if rec else ""), p_vars(nd, tc, ety, rec, 1)))
    return out


# ------------------------------------------------------------------ bounded stand-in
def blocks(r, n, d):
    cut = sorted(r.sample(range(1, n), d - 1)) if d > 1 else []
    b = [0] + cut + [n]
    return [(b[k], b[k + 1]) for k in range(d)]


def one_axis(dn):
    """a variable spans at most one divided x and one divided y dimension (else no piece holds the off-diagonal points)"""
    out, seen = [], set()
    for n in dn:
        if n[0] in "xy":
            if n[0] in seen:
                continue
            seen.add(n[0])
        out.append(n)
    return out


def gen_case(r, k):
    ndx, ndy, ndo = r.choice([1, 1, 2]), r.choice([0, 1, 1, 2]), r.randint(0, 2)
    dims = []
    nx, ny = r.randint(1, 4), r.randint(1, 3)
    if ndy == 0:
        ny = 1
    for n in range(ndx):
        l = r.randint(nx, nx + 6)
        dims.append(["x%d" % n, l, "x", blocks(r, l, nx)])
    for n in range(ndy):
        l = r.randint(ny, ny + 5)
        dims.append(["y%d" % n, l, "y", blocks(r, l, ny)])
    for n in range(ndo):
        dims.append(["o%d" % n, r.randint(1, 4), "o", None])
    rec = r.random() < 0.65
    if rec:
        dims.append(["time", None, "o", None])
    r.shuffle(dims)
    names = [d[0] for d in dims if d[1] is not None]
    vs = []
    for n in range(r.randint(1, 5)):
        dn = one_axis(r.sample(names, r.randint(0, min(4, len(names)))))
        if rec and r.random() < 0.55:
            dn = ["time"] + dn[:3]
        vs.append(["v%d" % n, r.choice("bchifd"), dn, r.random() < 0.4])
    coordrec = r.random() < 0.7 or not any("time" in v[2] for v in vs)
    order = list(range(nx * ny))
    mode = r.choice(["auto", "auto", "range", "list"])
    if mode == "list":
        r.shuffle(order)
    return dict(dims=dims, vars=vs, nx=nx, ny=ny, nrec=r.choice([1, 2, 3, 5, 7, 1, 2, 3, 5, 7, 4, 6, 0]), start=r.choice([0, 0, 1, 7]), width=r.choice([4, 4, 6]), mode=mode, order=order,
                k=r.choice([None, None, 0, 1, 2, 3, 50]), fmt=r.choice([None, None, None, "-64", "-n4"]), base=r.choice([1, 1, 1, 0, 3]), drop=r.random() < 0.15, missing=r.random() < 0.3,
                coordlast=r.random() < 0.4, coordrec=coordrec, verbose=r.random() < 0.1, out0000=r.random() < 0.1, pad=r.choice([None, None, 0, 64]), seed=r.randrange(1 << 30),
                perm=r.random() < 0.5)


MISS = {"b": 9, "c": b"#", "h": -999, "i": -99999, "f": -1024.5, "d": 1e20}


def dataset(c):
    rng = np.random.RandomState(c["seed"])
    ln = {d[0]: (c["nrec"] if d[1] is None else d[1]) for d in c["dims"]}
    coord, data = [], []
    shape = np.random.RandomState(c["seed"] // 2)       # which variables and types, whatever the number of records
    for name, l, kind, bl in c["dims"]:
        if kind == "o" and (l is None and not c["coordrec"] or l is not None and shape.rand() < 0.4):
            continue
        coord.append((name, shape.choice(list("dfi")) if kind != "o" else "d", (name,), np.floor(rng.rand(ln[name]) * 1000), {"long_name": "axis " + name}))
    for name, t, dn, miss in c["vars"]:
        shp = tuple(ln[d] for d in dn)
        n = int(np.prod(shp)) if shp else 1
        a = rng.randint(1, 120, n)
        if t == "c":
            a = np.array([bytes([65 + (int(v) % 26)]) for v in a], dtype="S1")
        elif t in "fd":
            a = a / 8.0
        elif t in "ih":
            a = a * 50
        at = {"long_name": "var " + name}
        if miss:
            from engine.nc import DT, CODE
            at["missing_value"] = np.array([MISS[t]], dtype=DT[CODE[t]]) if t != "c" else MISS[t].decode()
        data.append((name, t, tuple(dn), a.reshape(shp) if shp else a.reshape(()), at))
    return ln, (data + coord if c["coordlast"] else coord + data)


def write_pieces(c, d, stem="out.nc", skip=()):
    from engine import nc
    ln, allv = dataset(c)
    np_ = c["nx"] * c["ny"]
    files = []
    for p in range(np_):
        xi, yi = p % c["nx"], p // c["nx"]
        blk = {}
        for name, l, kind, bl in c["dims"]:
            blk[name] = (0, ln[name]) if kind == "o" else bl[xi if kind == "x" else yi]
        vs = []
        for name, t, dn, a, at in allv:
            at = dict(at)
            if dn == (name,) and name[0] in "xy" and name in blk:
                b, base = blk[name], c["base"]
                at["domain_decomposition"] = np.array([base, base + ln[name] - 1, base + b[0], base + b[1] - 1], dtype=">i4")
            vs.append((name, t, dn, a[tuple(slice(*blk[x]) for x in dn)] if dn else a, at))
        fn = "%s.%0*d" % (stem, c["width"], p + c["start"])
        files.append(fn)
        if p in skip:
            continue
        nc.write(os.path.join(d, fn), [(q[0], None if q[1] is None else blk[q[0]][1] - blk[q[0]][0]) for q in c["dims"]], vs,
                 {"NumFilesInSet": np.array([np_], dtype=">i4"), "filename": fn, "title": "t"}, 1)
    return ln, allv, files


def command(c, exe, files, stem="out.nc"):
    cmd = [exe]
    if c["k"] is not None:
        cmd += ["-k", str(c["k"])]
    if c["fmt"]:
        cmd.append(c["fmt"])
    if c["verbose"]:
        cmd.append("-vv")
    if c["missing"]:
        cmd.append("-m")
    if c["pad"] is not None:
        cmd += ["-h", str(c["pad"])]
    np_ = c["nx"] * c["ny"]
    if c["mode"] == "auto":
        if c["start"]:
            cmd += ["-n", str(c["start"])]
    elif c["mode"] == "range":
        cmd += ["-n", str(c["start"]), "-e", str(c["start"] + np_ - 1)]
    return cmd + [stem + ".0000" if c["out0000"] else stem] + ([files[k] for k in c["order"]] if c["mode"] == "list" else [])


def fresh_dir(base):
    d = os.path.join(base, "w%d" % os.getpid())
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    return d


def describe(c, cmd):
    return "mppnccombine %s with dims %s vars %s records %d pieces %dx%d seed %d" % (
        " ".join(cmd[1:]), [tuple(q) for q in c["dims"]], [tuple(v) for v in c["vars"]], c["nrec"], c["nx"], c["ny"], c["seed"])


def read_out(path, c, d):
    from engine import nc
    if c["fmt"] == "-n4":
        subprocess.run(["nccopy", "-k", "classic", path, os.path.join(d, "conv.nc")], check=True)
        path = os.path.join(d, "conv.nc")
    return nc.read(path)


def compare(c, d, ln, allv, desc, skip=(), fill=None):
    dims, vs, g = read_out(os.path.join(d, "out.nc"), c, d)
    for name, l, kind, bl in c["dims"]:
        if name not in dims or (l is None) != (dims[name] is None) or (l is not None and dims[name] != l):
            return "dimension %s of the output is %s, expected %s: %s" % (name, dims.get(name), l, desc)
    if "NumFilesInSet" in g or g.get("title") != b"t" or g.get("filename") != b"out.nc":
        return "global attributes wrong: %s: %s" % (g, desc)
    if set(vs) != {v[0] for v in allv}:
        return "variables are %s: %s" % (sorted(vs), desc)
    kind = {q[0]: q for q in c["dims"]}
    for name, t, dn, a, at in allv:
        vt, vd, va, vat = vs[name]
        if vd != dn:
            return "variable %s has dimensions %s: %s" % (name, vd, desc)
        want = np.array(a)
        if skip and any(kind[x][2] != "o" for x in dn):
            f = fill(t, at)
            for p in skip:
                xi, yi = p % c["nx"], p // c["nx"]
                hole = [kind[x][3][xi if kind[x][2] == "x" else yi] if kind[x][2] != "o" else None for x in dn]
                # the hole exists only where no other piece supplies the same points
                others = [q for q in range(c["nx"] * c["ny"]) if q not in skip]
                sup = any(all(kind[x][2] == "o" or kind[x][3][(q % c["nx"]) if kind[x][2] == "x" else q // c["nx"]] == h for x, h in zip(dn, hole)) for q in others)
                if not sup:
                    want[tuple(slice(None) if h is None else slice(*h) for h in hole)] = f
        if va.shape != want.shape or not np.array_equal(va, want.astype(va.dtype)):
            bad = np.argwhere(va != want.astype(va.dtype))[0].tolist() if va.shape == want.shape and want.shape else []
            return "variable %s %s type %s differs from the whole at %s: %s" % (name, dn, t, bad, desc)
        if "domain_decomposition" in vat:
            return "domain_decomposition kept on %s: %s" % (name, desc)
        for k, x in at.items():
            y = vat.get(k)
            y = y.decode() if isinstance(y, bytes) else y
            if isinstance(x, str) and y != x or not isinstance(x, str) and not np.array_equal(np.array(y), np.array(x)):
                return "attribute %s of %s is %r: %s" % (k, name, y, desc)
    return None


def run_case(c, exe, base):
    d = fresh_dir(base)
    np_ = c["nx"] * c["ny"]
    skip = ()
    if c["drop"] and np_ > 1 and c["mode"] != "list":
        skip = (1 + c["seed"] % (np_ - 1),)
    ln, allv, files = write_pieces(c, d, skip=skip)
    cmd = command(c, exe, files)
    if skip:
        cmd.insert(1, "-f")
    p = subprocess.run(cmd, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=120)
    desc = describe(c, cmd)
    if p.returncode != (1 if skip else 0):
        return "exit status %d %s: %s" % (p.returncode, p.stderr[-200:], desc)

    def fill(t, at):
        if c["missing"] and "missing_value" in at:
            return MISS[t]
        return b"\0" if t == "c" else 0
    try:
        return compare(c, d, ln, allv, desc, skip, fill)
    except Exception as e:
        return "output unreadable (%r): %s" % (e, desc)


def search(S):
    from engine.search import link, fenced
    from engine.irparse import scratch
    exe = link("mppnccombine", fenced(CBSRC))
    S.parallel("mppnccombine", gen_case, lambda c: run_case(c, exe, scratch()), S.secs(30, 240),
               rule="random whole files (up to 6 dimensions, 0-4 dimensional variables of all six types, records) cut into uneven pieces; options -n -e -k -64 -n4 -m -h -f, listed or numbered inputs; output compared with the whole")
    from .c03 import SCSRC
    sc = link("mppncscatter", fenced(SCSRC))

    def round_trip(c):
        from . import c03
        from engine import nc
        d = fresh_dir(scratch())
        want, ln = c03.make_input(c, os.path.join(d, "in.nc"))
        cmd = [sc, "-x", str(c["nx"]), "-y", str(c["ny"])]
        for kind, flag in (("x", "-X"), ("y", "-Y")):
            l = [q[0] for q in c["dims"] if q[2] == kind and q[3] == "arg"]
            if l:
                cmd += [flag, ",".join(l)]
        cmd += ["in.nc"]
        desc = "scatter and combine: %s on dims %s vars %s" % (cmd[1:], [(q[0], q[1], q[3], q[4]) for q in c["dims"]], c["vars"])
        if subprocess.run(cmd, cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode:
            return "scatter failed: " + desc
        os.rename(os.path.join(d, "in.nc"), os.path.join(d, "orig.nc"))
        if subprocess.run([exe, "in.nc"], cwd=d, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=60).returncode:
            return "combine failed: " + desc
        a, b = nc.read(os.path.join(d, "orig.nc")), nc.read(os.path.join(d, "in.nc"))
        if a[0] != b[0] or set(a[1]) != set(b[1]):
            return "dimensions differ: %s %s: %s" % (a[0], b[0], desc)
        for n in a[1]:
            x, y = a[1][n], b[1][n]
            if x[0] != y[0] or x[1] != y[1] or not np.array_equal(x[2], y[2]):
                return "variable %s differs after the round trip: %s" % (n, desc)

    def gen_rt(r, k):
        from . import c03
        c = c03.gen_case(r, k)
        for q in c["dims"]:
            if q[3] == "arg":  # a divided dimension without a coordinate variable carries no decomposition record
                q[3] = "units"
        for v in c["vars"]:
            v[2] = one_axis(v[2])
        return c
    S.parallel("round trip", gen_rt, round_trip, S.secs(10, 60), rule="mppncscatter followed by mppnccombine gives the original values back")
    S.samples = [{"dims": [["x", 7, [[0, 3], [3, 7]]]], "note": "one whole cut into two pieces"}]
