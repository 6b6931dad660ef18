"""Proof contexts (one per function under contract) and the solver pool that discharges obligations."""
import os
import subprocess
import time
import traceback
import multiprocessing as mp
import z3
from .irparse import Unsupported, load_module, I32, F64, PTR, VOID, I1
from . import sym
from .sym import Engine, State, Ptr, Region, View, LoopSpec, AttachError, iv, And, Obligation, simp

JOBS = 8


class Proof:
    """one function of the real code under contract"""

    def __init__(self, src, func, contracts=None, modules=(), extra=(), fpmode="real", bounds=True, timeout=20):
        self.src, self.func = src, func
        self.mod = load_module(src, extra)
        mods = [self.mod] + [load_module(m, extra) for m in modules]
        self.eng = Engine(mods, contracts, fpmode)
        self.eng.bounds = bounds
        self.timeout = timeout
        fn = self.mod.func(func)
        if fn is None:
            raise AttachError("function %s not found in %s" % (func, src))
        self.fn = fn
        self.args = []
        self.a = {}
        for ty, nm, at in fn.params:
            if ty == PTR:
                r = self.eng.region(nm, kind="param", ety=at.get("byval") or at.get("sret"))
                v = Ptr(r)
            else:
                v = z3.Const(nm, sym.sort_of(ty))
            self.args.append(v)
            self.a[nm] = v
        self.st0 = State((), {})
        self.pre = View(self.eng, self.st0)
        self.eng.frames = []
        self.ensures_list = []
        self.instances = []
        self.reqs = []
        self.ret = None
        self.post = None

    def struct(self, p, tyname):
        p.region.ety = ("struct", "struct." + tyname)

    def elem(self, p, ty):
        p.region.types[()] = ty

    def length(self, p, n):
        p.region.length = n if callable(n) else (lambda *pre, n=n: n if z3.is_expr(n) else iv(n))

    def requires(self, *fs):
        for f in fs:
            self.eng.facts.append(f)
            self.reqs.append(f)

    def lemma_fact(self, name, f):
        """a valid statement proved on its own and then available as a hypothesis"""
        self.eng.obls.append(Obligation("lemma " + name, (0, ()), f, self.func, 0, "lemma"))
        self.eng.facts.append(f)

    def lemma(self, name, vs, body):
        """a statement proved once for all values of vs; returns a function that adds an instance as a hypothesis"""
        self.eng.obls.append(Obligation("lemma " + name, (0, ()), body, self.func, 0, "lemma"))
        seen = set()

        def inst(*terms):
            if self.eng.dry:
                return
            f = z3.substitute(body, *[(v, t if z3.is_expr(t) else z3.RealVal(t) if v.sort() == z3.RealSort() else iv(t)) for v, t in zip(vs, terms)])
            if f.get_id() not in seen:
                seen.add(f.get_id())
                self.eng.facts.append(f)
        return inst

    def field(self, p, name):
        ety = p.region.ety
        fl = self.mod.fields.get(ety[1])
        if fl is None or name not in fl:
            raise AttachError("field %s of %s" % (name, ety))
        return Ptr(p.region, p.path + (("f", fl.index(name)),), p.idx)

    def fieldptr(self, p, name):
        """initial pointer value stored in a pointer field: Ptr into the derived region"""
        return self.pre.at(self.field(p, name), None, PTR)

    def globalptr(self, name):
        fr = sym.Frame(self.fn, 0)
        return self.eng.global_ptr(name, fr)

    def ghost(self, name, sort="int"):
        return z3.Const("g_" + name, z3.IntSort() if sort == "int" else z3.RealSort())

    def loop(self, k, inv=None, unroll=0, dec=None, buffers=()):
        self.eng.loopspecs[k] = LoopSpec(inv, unroll, dec, buffers)

    def loop_default(self, inv):
        """invariant of every loop without one of its own"""
        self.eng.loopdefault = LoopSpec(inv, 0, None, ())

    def run(self):
        st, ret = self.eng.run_function(self.fn, self.args, self.st0.copy())
        for k in self.eng.loopspecs:
            if k not in self.eng.loopnames:
                raise AttachError("loop %d of %s does not exist" % (k, self.func))
        for k, s in self.eng.loopspecs.items():
            pass
        self.nloops = len(self.eng.loopnum)
        if st is None:
            raise AttachError("%s never returns" % self.func)
        self.final = st
        self.ret = ret
        self.post = View(self.eng, st, None)
        self.eng.frames = []
        return self

    def ensures(self, name, f):
        self.eng.obls.append(Obligation("ensures: " + name, (len(self.eng.facts), self.final.pc), f, self.func, 0, "ensures"))

    def obligations(self):
        return self.eng.obls

    # ---------------------------------------------------------------- smt
    def smt(self, ob):
        n, pc = ob.hyps
        s = z3.Solver()
        hy, g = sym.skolem_goal(ob.goal)
        fs = list(self.eng.facts[:n]) + list(pc) + hy + [z3.Not(g)]
        fs += sym.eq_lemmas(fs)
        s.add(*fs)
        return s.to_smt2()

    def vac_smt(self):
        s = z3.Solver()
        for f in self.eng.facts:
            s.add(f)
        for c in self.final.pc:
            s.add(c)
        return s.to_smt2()


def _model_str(m):
    out = {}
    for d in m.decls():
        if d.arity() == 0:
            out[d.name()] = str(m[d])
        elif len(out) < 60:
            out[d.name()] = str(m[d])[:200]
    return out


def run_cvc5(smt, timeout, extra=()):
    try:
        r = subprocess.run(["cvc5", "--lang", "smt2", "--tlimit=%d" % int(timeout * 1000)] + list(extra), input="(set-logic ALL)\n" + smt,
                           capture_output=True, text=True, timeout=timeout + 5)
        o = r.stdout.strip().split("\n")[0] if r.stdout else "unknown"
        return o if o in ("sat", "unsat") else "unknown"
    except Exception:
        return "unknown"


def solve(job):
    """job: (id, smt2, timeout, wantmodel) -> (id, status, time, backend, model)"""
    jid, smt, timeout, strat = job
    t0 = time.time()
    model = None
    res = "unknown"
    be = ""
    sat_seen = False
    try:
        plans = strat or [("z3", {}, 0.1), ("z3", {"smt.arith.nl": False}, 0.05), ("z3", {"smt.random_seed": 3}, 0.08), ("z3", {"smt.random_seed": 5}, 0.08),
                          ("z3", {"smt.arith.solver": 2}, 0.15), ("cvc5", (), 0.4), ("nra", {}, 0.15), ("z3", {"smt.mbqi": False}, 0.1),
                          ("z3", {"smt.random_seed": 7}, 0.3), ("z3", {"smt.random_seed": 21}, 0.6), ("cvc5", ("--nl-cov",), 0.4)]
        for kind, opt, frac in plans:
            tl = timeout * frac
            if kind == "z3":
                s = z3.SolverFor("ALL") if False else z3.Solver()
                s.set("timeout", int(tl * 1000))
                for k, v in opt.items():
                    s.set(k, v)
                s.from_string(smt)
                r = s.check()
                if r == z3.unsat:
                    res, be = "unsat", "z3"
                    break
                if r == z3.sat and "smt.arith.nl" not in opt and "smt.mbqi" not in opt:
                    res, be = "sat", "z3"
                    model = _model_str(s.model())
                    break
            elif kind == "nra":
                if "(forall" in smt:
                    continue
                g = z3.Goal()
                g.add(*z3.parse_smt2_string(smt))
                t = z3.TryFor(z3.Then("simplify", "ackermannize_bv" if False else "purify-arith", "elim-term-ite", "solve-eqs", "smt"), int(tl * 1000))
                s = t.solver()
                s.set("timeout", int(tl * 1000))
                s.add(*z3.parse_smt2_string(smt))
                r = s.check()
                if r == z3.unsat:
                    res, be = "unsat", "z3-nra"
                    break
            elif kind == "cvc5":
                r = run_cvc5(smt, tl, opt)
                if r == "unsat":
                    res, be = "unsat", "cvc5"
                    break
                if r == "sat":
                    res, be = "sat", "cvc5"
                    break
    except Exception as e:
        res, be = "error", repr(e)[:300]
    return jid, res, time.time() - t0, be, model


_pool = None


def pool():
    global _pool
    if _pool is None:
        _pool = mp.get_context("fork").Pool(JOBS)
    return _pool


def discharge(proofs, timeout=None, verbose=False):
    """solves all obligations of the proofs; returns list of result dicts"""
    jobs = []
    table = {}
    for pi, p in enumerate(proofs):
        for oi, ob in enumerate(p.obligations()):
            if z3.is_true(ob.goal):
                ob.status, ob.backend = "unsat", "simplifier"
                continue
            jid = (pi, oi)
            table[jid] = ob
            jobs.append((jid, p.smt(ob), timeout or p.timeout, getattr(p, "strategy", None)))
        jobs.append(((pi, -1), p.vac_smt(), 6, [("z3", {}, 1.0)]))
    with mp.get_context("fork").Pool(JOBS) as pl:
        for jid, res, t, be, model in pl.imap_unordered(solve, jobs):
            if jid[1] == -1:
                proofs[jid[0]].vac = res
                continue
            ob = table[jid]
            ob.status, ob.time, ob.backend, ob.info = res, t, be, model
            if verbose and res != "unsat":
                print("   ", res, ob.func, ob.line, ob.name, "%.1fs" % t)
    return proofs
