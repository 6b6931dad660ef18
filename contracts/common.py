"""contracts shared between properties (a caller is checked against these, not against the body)"""
import z3
from z3 import Implies, If, Or, Not
from engine.irparse import I32, I64, F64, PTR, I8
from engine.sym import And, forall, Ptr, fresh, freshname, iv, simp, Base, LoopSpec, Bulk
from engine.prove import Proof

DOM = "lib/libfrencutils/mpp_domain.c"


def no_error_exit(P):
    """error exits must be unreachable under the precondition"""
    def hook(eng, st, name, av, I):
        eng.oblige("no error exit for valid input", st, z3.BoolVal(False), I.line, "noexit")
    P.eng.exit_hook = hook


def c_compute_extent(c):
    """callee contract of the 1-D decomposition routine (proved by proof 'mpp_compute_extent')"""
    npts, nd, ib, ie = c.args
    c.require("1<=ndivs<=npts", And(nd >= 1, npts >= nd))
    fs = []
    for p in (ib, ie):
        eng = c.eng
        n = len(p.idx)
        nb = eng.mkbase(freshname("extent"), n, I32)
        lo = p.idx
        c.bulk(p, I32, lambda *ix, lo=lo, nd=nd: And(*[x == y for x, y in zip(ix[:-1], lo[:-1])], ix[-1] >= lo[-1], ix[-1] < lo[-1] + nd),
               lambda *ix, nb=nb: nb.read(ix))
        fs.append(lambda k, nb=nb, lo=lo: nb.read(lo[:-1] + (simp(lo[-1] + k),)))
    B, E = fs
    j = z3.Int("j")
    c.assume_all(And(B(iv(0)) == 0, E(nd - 1) == npts - 1))
    c.assume_all(forall([j], Implies(And(0 <= j, j < nd - 1), B(j + 1) == E(j) + 1), [E(j)]))
    c.assume_all(forall([j], Implies(And(0 < j, j < nd), B(j) == E(j - 1) + 1), [B(j)]))
    c.assume_all(forall([j], Implies(And(0 <= j, j < nd), And(E(j) >= B(j), B(j) >= 0, E(j) < npts)), [E(j), B(j)]))
    c.eng.extents = getattr(c.eng, "extents", [])
    if not c.eng.dry:
        c.eng.extents.append((npts, nd, B, E))
