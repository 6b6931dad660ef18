"""Verification-condition generator: symbolic execution of LLVM IR functions of the real code with
loops cut at their headers by invariants, calls replaced by contracts (or the callee's body inlined).

Machine model: see DESIGN.md section "Engine".  Integers are mathematical, doubles are reals (listed as
assumptions in the evidence); i8/i16 truncation is exact; i1 are Booleans.
"""
import re
import z3
from fractions import Fraction
from .irparse import Unsupported, Const, I1, I8, I32, I64, F64, F32, PTR, VOID, load_module

Z = z3
IntS, RealS, BoolS = z3.IntSort(), z3.RealSort(), z3.BoolSort()


def iv(n):
    return z3.IntVal(n)


def is_num(t):
    return z3.is_int_value(t) or z3.is_rational_value(t)


def sort_of(ty):
    if ty == I1:
        return BoolS
    if ty[0] == "i":
        return IntS
    if ty[0] in ("f", "f32", "f80"):
        return RealS
    raise Unsupported("sort of %s" % (ty,))


_cnt = [0]


def fresh(name, sort):
    _cnt[0] += 1
    return z3.Const("%s!%d" % (name, _cnt[0]), sort)


def freshname(name):
    _cnt[0] += 1
    return "%s!%d" % (name, _cnt[0])


def simp(t):
    return z3.simplify(t)


def And(*a):
    l = []
    for x in a:
        if isinstance(x, (list, tuple)):
            l += list(x)
        else:
            l.append(x)
    l = [x for x in l if not (x is True or (z3.is_expr(x) and z3.is_true(x)))]
    if not l:
        return z3.BoolVal(True)
    if len(l) == 1:
        return l[0]
    return z3.And(*l)


def Or(*a):
    return z3.Or(*a) if len(a) != 1 else a[0]


def _good_pattern(p, ids):
    if not (z3.is_app(p) and p.decl().kind() == z3.Z3_OP_UNINTERPRETED and p.num_args() > 0):
        return False
    st, seen = list(p.children()), set()
    while st:
        x = st.pop()
        i = x.get_id()
        if i in ids:
            seen.add(i)
        if z3.is_app(x) and x.num_args() and x.decl().kind() not in (z3.Z3_OP_UNINTERPRETED, z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL):
            return False
        st.extend(x.children())
    return seen == ids


def forall(vs, body, pats=()):
    """universally quantified formula; patterns that are not plain function applications are dropped"""
    if not isinstance(vs, (list, tuple)):
        vs = [vs]
    ids = {v.get_id() for v in vs}
    ps = [p for p in pats if z3.is_expr(p) and _good_pattern(p, ids)]
    return z3.ForAll(vs, body, patterns=ps) if ps else z3.ForAll(vs, body)


def skolem_goal(g):
    """goal: strip implications/universal quantifiers -> (extra hyps, quantifier-free-at-top goal)"""
    hyps = []
    while True:
        if z3.is_quantifier(g) and g.is_forall():
            cs = [fresh("sk_" + g.var_name(i), g.var_sort(i)) for i in range(g.num_vars())]
            g = z3.substitute_vars(g.body(), *reversed(cs))
        elif z3.is_implies(g):
            hyps.append(g.arg(0))
            g = g.arg(1)
        else:
            return hyps, g


class Region:
    def __init__(self, name, nprefix=0, ety=None, kind="param"):
        self.name = name
        self.nprefix = nprefix
        self.ety = ety  # element type if known
        self.kind = kind  # param, alloca, global, malloc, derived, null
        self.scalar = False
        self.length = None  # python fn(prefix)->elements  or None
        self.bytes = None
        self.nullfn = None
        self.content = None  # python str for string constants
        self.types = {}

    def __repr__(self):
        return "<%s>" % self.name


NULLR = Region("NULL", kind="null")


class Ptr:
    __slots__ = ("region", "path", "idx")

    def __init__(self, region, path=(), idx=None):
        self.region = region
        self.path = path
        self.idx = tuple(idx) if idx is not None else (iv(0),)

    def __repr__(self):
        return "Ptr(%s,%s,%s)" % (self.region, self.path, self.idx)


NULL = Ptr(NULLR)


class Alt:
    """guarded alternatives of pointers; list of (guard, Ptr), guards exclusive, last may be True"""

    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts

    def __repr__(self):
        return "Alt(%s)" % (self.alts,)


class FnPtr:
    def __init__(self, name):
        self.name = name


class Undef:
    def __repr__(self):
        return "undef"


UNDEF = Undef()


def same(a, b):
    if a is b:
        return True
    if z3.is_expr(a) and z3.is_expr(b):
        return a.eq(b)
    if isinstance(a, Ptr) and isinstance(b, Ptr):
        return a.region is b.region and a.path == b.path and len(a.idx) == len(b.idx) and all(
            x.eq(y) for x, y in zip(a.idx, b.idx))
    return False


def alts(p):
    if isinstance(p, Alt):
        return p.alts
    return [(z3.BoolVal(True), p)]


def ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if same(a, b):
        return a
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if isinstance(a, (Ptr, Alt)) or isinstance(b, (Ptr, Alt)):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.region is b.region and a.path == b.path:
            return Ptr(a.region, a.path, [ite(c, x, y) for x, y in zip(a.idx, b.idx)])
        out = []
        for g, p in alts(a):
            out.append((And(c, g), p))
        for g, p in alts(b):
            out.append((And(z3.Not(c), g), p))
        return Alt(out)
    if isinstance(a, FnPtr) or isinstance(b, FnPtr):
        raise Unsupported("ite of function pointers")
    if z3.is_bool(a) and not z3.is_bool(b):
        a = z3.If(a, iv(1), iv(0))
    if z3.is_bool(b) and not z3.is_bool(a):
        b = z3.If(b, iv(1), iv(0))
    return z3.If(c, a, b)


# ---- automatic lemmas for row-major positions -------------------------------------------------
# Every symbolic comparison x == y of two index terms is registered; when the equality occurs in an
# obligation, the (universally valid) facts   x-y == a*s + b  and |b| < s  ->  a == 0 and b == 0
# are added for the strides s that occur in x-y.
EQREG = {}


def _prods(t, c, out):
    """t (times numeric c) as list of (coef, [factors])"""
    if z3.is_int_value(t):
        out.append((c * t.as_long(), []))
        return
    if z3.is_app(t):
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            for x in t.children():
                _prods(x, c, out)
            return
        if k == z3.Z3_OP_SUB:
            ch = t.children()
            _prods(ch[0], c, out)
            for x in ch[1:]:
                _prods(x, -c, out)
            return
        if k == z3.Z3_OP_UMINUS:
            _prods(t.arg(0), -c, out)
            return
        if k == z3.Z3_OP_MUL:
            fs, cc = [], c
            st = list(t.children())
            while st:
                x = st.pop(0)
                if z3.is_int_value(x):
                    cc *= x.as_long()
                elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_MUL:
                    st = list(x.children()) + st
                elif z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UMINUS:
                    cc = -cc
                    st = [x.arg(0)] + st
                else:
                    fs.append(x)
            if len(fs) == 1:
                _prods(fs[0], cc, out)
            else:
                out.append((cc, fs))
            return
    out.append((c, [t]))


def _mkprod(c, fs):
    r = iv(c)
    for f in fs:
        r = r * f
    return r


def stride_lemmas(D, cond, depth=0):
    """D: list of (coef, factors) for a term known to be 0 under cond"""
    if depth > 3:
        return []
    nl = [(c, f) for c, f in D if len(f) >= 2]
    lin = [(c, f) for c, f in D if len(f) < 2]
    # also constant multiples  c*x with |c|>=2 of a single stride are handled by the solver
    if not nl:
        return []
    cands = {}
    for c, f in nl:
        for x in f:
            cands[x.get_id()] = x
    out = []
    for sid, s in cands.items():
        if not all(any(x.get_id() == sid for x in f) for c, f in nl):
            continue
        quot, rem = [], list(lin)
        for c, f in nl:
            g = list(f)
            for n, x in enumerate(g):
                if x.get_id() == sid:
                    del g[n]
                    break
            if len(g) == 1:
                _prods(g[0], c, quot)
            else:
                quot.append((c, g))
        # linear multiples of s itself belong to the quotient
        rem2 = []
        for c, f in rem:
            if len(f) == 1 and f[0].get_id() == sid:
                quot.append((c, []))
            else:
                rem2.append((c, f))
        a = simp(z3.Sum([_mkprod(c, f) for c, f in quot])) if quot else iv(0)
        b = simp(z3.Sum([_mkprod(c, f) for c, f in rem2])) if rem2 else iv(0)
        cnd = And(cond, -s < b, b < s)
        out.append(z3.Implies(cnd, And(a == 0, b == 0)))
        out += stride_lemmas(quot, cnd, depth + 1)
    return out


def eq_lemmas(roots):
    """lemmas for every registered index equality occurring under the given terms"""
    seen, out, st = set(), [], list(roots)
    while st:
        x = st.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        if i in EQREG:
            e, a, b, lem = EQREG[i]
            if lem is None:
                D = []
                _prods(simp(a), 1, D)
                _prods(simp(b), -1, D)
                lem = stride_lemmas(D, e)
                EQREG[i] = (e, a, b, lem)
            out += lem
        st.extend(x.children())
    return out


def idx_eq(a, b):
    cs = []
    for x, y in zip(a, b):
        e = simp(x == y)
        if not z3.is_true(e) and not z3.is_false(e) and e.get_id() not in EQREG:
            EQREG[e.get_id()] = (e, x, y, None)
        if z3.is_false(e):
            return e
        if not z3.is_true(e):
            cs.append(e)
    return And(*cs)


class Mem:
    def read(self, idx):
        raise NotImplementedError


class Base(Mem):
    def __init__(self, fn):
        self.fn = fn

    def read(self, idx):
        return self.fn(*idx)


class Store(Mem):
    def __init__(self, prev, idx, val, guard=None):
        self.prev, self.idx, self.val, self.guard = prev, idx, val, guard

    def read(self, idx):
        c = idx_eq(idx, self.idx)
        if self.guard is not None:
            c = simp(And(c, self.guard))
        if z3.is_true(c):
            return self.val
        p = self.prev.read(idx)
        if z3.is_false(c):
            return p
        return ite(c, self.val, p)


class Bulk(Mem):
    def __init__(self, prev, pred, valfn):
        self.prev, self.pred, self.valfn = prev, pred, valfn

    def read(self, idx):
        c = simp(self.pred(*idx))
        if z3.is_true(c):
            return self.valfn(*idx)
        if z3.is_false(c):
            return self.prev.read(idx)
        return ite(c, self.valfn(*idx), self.prev.read(idx))


class IteMem(Mem):
    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b

    def read(self, idx):
        return ite(self.c, self.a.read(idx), self.b.read(idx))


class State:
    __slots__ = ("pc", "mem")

    def __init__(self, pc=(), mem=None):
        self.pc = pc
        self.mem = mem if mem is not None else {}

    def copy(self):
        return State(self.pc, dict(self.mem))

    def assume_pc(self, c):
        c = simp(c)
        if z3.is_true(c):
            return self
        self.pc = self.pc + (c,)
        return self

    def pcterm(self):
        return And(*self.pc)


def merge_pc(pcs):
    """disjunction of conjunction-tuples; returns (pc tuple, list of guard terms selecting each)"""
    k = 0
    mn = min(len(p) for p in pcs)
    while k < mn and all(p[k].eq(pcs[0][k]) for p in pcs):
        k += 1
    common = pcs[0][:k]
    rests = [And(*p[k:]) for p in pcs]
    if any(z3.is_true(r) for r in rests):
        return common, rests
    d = simp(z3.Or(*rests))
    if not z3.is_true(d):
        # try complementary two-way
        if len(rests) == 2 and simp(rests[0]).eq(simp(z3.Not(rests[1]))):
            return common, rests
        common = common + (d,)
    return common, rests


class Obligation:
    def __init__(self, name, hyps, goal, func="", line=0, kind=""):
        self.name, self.hyps, self.goal = name, hyps, goal
        self.func, self.line, self.kind = func, line, kind
        self.status = None
        self.time = 0.0
        self.backend = ""
        self.info = ""


class Frame:
    def __init__(self, fn, fid, parent=None):
        self.fn = fn
        self.fid = fid
        self.env = {}
        self.allocas = {}
        self.parent = parent
        self.callpath = (parent.callpath if parent else ()) + (fn.name,)


class LoopInfo:
    pass


def cfg_info(fn):
    if hasattr(fn, "_cfg"):
        return fn._cfg
    succ = {}
    for b, ins in fn.blocks.items():
        t = ins[-1]
        if t.op == "br":
            s = list(t.a[1:])
        elif t.op == "switch":
            s = [t.a[1]] + [x[1] for x in t.a[2]]
        else:
            s = []
        seen = []
        for x in s:
            if x not in seen:
                seen.append(x)
        succ[b] = seen
    entry = fn.order[0]
    # rpo
    seen = set()
    post = []
    stack = [(entry, iter(succ[entry][::-1]))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        adv = False
        for x in it:
            if x not in seen:
                seen.add(x)
                stack.append((x, iter(succ[x][::-1])))
                adv = True
                break
        if not adv:
            post.append(b)
            stack.pop()
    rpo = post[::-1]
    num = {b: i for i, b in enumerate(rpo)}
    pred = {b: [] for b in rpo}
    for b in rpo:
        for x in succ[b]:
            pred[x].append(b)
    # dominators
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            ps = [p for p in pred[b] if p in idom]
            n = ps[0]
            for p in ps[1:]:
                x, y = p, n
                while x != y:
                    while num[x] > num[y]:
                        x = idom[x]
                    while num[y] > num[x]:
                        y = idom[y]
                n = x
            if idom.get(b) != n:
                idom[b] = n
                changed = True

    def dominates(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]

    loops = {}
    for b in rpo:
        for x in succ[b]:
            if num[x] <= num[b]:
                if not dominates(x, b):
                    raise Unsupported("irreducible loop in " + fn.name)
                body = loops.setdefault(x, {x})
                work = [b]
                while work:
                    y = work.pop()
                    if y not in body:
                        body.add(y)
                        work += pred[y]
    fn._cfg = (succ, rpo, num, pred, loops)
    return fn._cfg


def as_int(t):
    """if real term t is syntactically an integer-valued expression return the Int term"""
    if z3.is_rational_value(t):
        if t.denominator_as_long() == 1:
            return iv(t.numerator_as_long())
        return None
    if not z3.is_app(t):
        return None
    k = t.decl().kind()
    if k == z3.Z3_OP_TO_REAL:
        return t.arg(0)
    if k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
        cs = [as_int(c) for c in t.children()]
        if any(c is None for c in cs):
            return None
        if k == z3.Z3_OP_ADD:
            return z3.Sum(cs)
        if k == z3.Z3_OP_UMINUS:
            return -cs[0]
        if k == z3.Z3_OP_MUL:
            r = cs[0]
            for c in cs[1:]:
                r = r * c
            return r
        r = cs[0]
        for c in cs[1:]:
            r = r - c
        return r
    if k == z3.Z3_OP_ITE:
        a, b = as_int(t.arg(1)), as_int(t.arg(2))
        if a is not None and b is not None:
            return z3.If(t.arg(0), a, b)
    return None


MATHUF = {"sin", "cos", "tan", "asin", "acos", "atan", "atan2", "exp", "log", "pow", "log10", "hypot", "cbrt", "tanh", "sinh", "cosh"}
IGNORED = {"printf", "fprintf", "puts", "putchar", "fflush", "fputs", "perror", "fputc", "fwrite", "free"}
NORETURN = {"exit", "abort", "mpp_error", "error_handler", "_exit", "__assert_fail"}


class Engine:
    def __init__(self, modules, contracts=None, fpmode="real"):
        self.modules = modules
        self.contracts = contracts or {}
        self.facts = []  # global facts (terms)
        self.fact_quant = []  # quantified facts: (vars, body(fn)) handled by prover
        self.obls = []
        self.dry = 0
        self.frames = []
        self.fid = 0
        self.regions = {}
        self.initial = {}
        self.loopnum = {}
        self.loopnames = {}
        self.loopspecs = {}
        self.loopdefault = None
        self.modcache = {}
        self.fpmode = fpmode
        self.bounds = True
        self.writes = None
        self.assumptions = set()
        self.inlined = set()
        self.called = set()
        self.top = None
        self.entry_state = None
        self.noreturn = set(NORETURN)
        self.ignored = set(IGNORED)
        self.pure = {}
        self.divcheck = False
        self.exit_hook = None
        self.lin = {}
        self.nreach = []
        self.inline_depth = 0
        self.trace_store = None
        self.noinline = set()
        self.unstable = set()
        self.exact32 = False
        self.punfresh = False
        self.dryprune = False  # branches decided by constants are also skipped while the sets of modified variables are collected
        self.natdiv = False  # integer divisions are between natural numbers (an obligation each)

    # ------------------------------------------------------------ utilities
    def fact(self, t, st=None):
        if self.dry:
            return
        if st is not None and st.pc:
            t = z3.Implies(st.pcterm(), t)
        self.facts.append(t)

    def oblige(self, name, st, goal, line=0, kind="assert"):
        if self.dry:
            return
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        g = simp(goal)
        fn = self.frames[-1].fn.name if self.frames else ""
        self.obls.append(Obligation(name, (len(self.facts), st.pc), goal if not z3.is_true(g) else g, fn, line, kind))

    def region(self, name, **kw):
        if name not in self.regions:
            self.regions[name] = Region(name, **kw)
        return self.regions[name]

    def mkbase(self, name, arity, ty, region=None, path=()):
        if ty == PTR:
            rn = name + "*"

            def fn(*idx):
                r = self.region(rn, nprefix=arity, kind="derived")
                return Ptr(r, (), tuple(idx) + (iv(0),))

            return Base(fn)
        s = sort_of(ty)
        if arity == 0:
            c = z3.Const(name, s)
            return Base(lambda: c)
        f = z3.Function(name, *([IntS] * arity + [s]))
        return Base(lambda *idx: f(*idx))

    def keyname(self, key):
        r, path, ty = key
        n = r
        for p in path:
            n += ".%s" % (p[1],) if p != "a" else "[]"
        return n

    def init_val(self, key):
        if key in self.initial:
            return self.initial[key]
        rname, path, ty = key
        r = self.regions[rname]
        nm = self.keyname(key)
        if r.kind == "global" and r.content is not None:
            s = r.content

            def fn(i0, *rest, s=s):
                i = rest[0] if rest else i0
                i = simp(i)
                if z3.is_int_value(i):
                    k = i.as_long()
                    if 0 <= k < len(s):
                        return iv(s[k])
                return fresh("strch", IntS)

            v = Base(fn)
        elif r.scalar:
            if ty == PTR:
                if r.kind == "alloca":
                    v = UNDEF
                else:
                    v = self.mkbase(nm, 0, ty).read(())
            else:
                v = z3.Const(nm if r.kind != "alloca" else freshname(nm), sort_of(ty))
                if ty == I8:
                    pass
        else:
            arity = r.nprefix + 1 + sum(1 for p in path if p == "a")
            if getattr(r, "zero", False):  # calloc
                z = NULL if ty == PTR else (z3.RealVal(0) if ty[0] in ("f", "f32") else iv(0))
                v = Base(lambda *ix, z=z: z)
            else:
                v = self.mkbase(nm, arity, ty)
        self.initial[key] = v
        return v

    def getmem(self, st, key):
        v = st.mem.get(key)
        if v is None:
            v = self.init_val(key)
        return v

    def setmem(self, st, key, v):
        st.mem[key] = v
        if self.writes is not None:
            self.writes.add(key)

    def check_type(self, r, path, ty):
        # the same cell must not be accessed at two types
        if ty == I1:
            return
        o = r.types.setdefault(path, ty)
        if o != ty:
            if self.punfresh:
                r.punned = True
                return
            raise Unsupported("type punning on %s: %s vs %s" % (r.name, o, ty))

    def check_bounds(self, st, p, ty, line, what):
        r = p.region
        if r.kind == "null":
            self.oblige("non-null dereference", st, z3.BoolVal(False), line, "safety")
            return
        if not self.bounds:
            return
        i0 = p.idx[r.nprefix]
        goal = None
        if r.length is not None:
            n = r.length(*p.idx[: r.nprefix])
            goal = z3.And(i0 >= 0, i0 < n)
        elif r.bytes is not None:
            if p.path == ():
                sz = self.topmod().sizeof(ty)
            elif r.ety is not None:
                sz = self.topmod().sizeof(r.ety)
            else:
                return
            b = r.bytes(*p.idx[: r.nprefix]) if callable(r.bytes) else r.bytes
            goal = z3.And(i0 >= 0, (i0 + 1) * sz <= b)
        if goal is not None:
            self.oblige("in-bounds %s of %s" % (what, r.name), st, goal, line, "bounds")
        # inner arrays
        if r.ety is not None and "a" in p.path:
            t = r.ety
            k = r.nprefix + 1
            m = self.topmod()
            for s in p.path:
                if s == "a":
                    if t[0] != "arr":
                        return
                    n = t[1]
                    t = t[2]
                    i = p.idx[k]
                    k += 1
                    if not z3.is_int_value(simp(i)) or not (0 <= simp(i).as_long() < n):
                        self.oblige("in-bounds %s of %s[]" % (what, r.name), st, z3.And(i >= 0, i < n), line, "bounds")
                else:
                    fs = m.structs.get(t[1]) if t[0] == "struct" else (t[1] if t[0] == "lit" else None)
                    if fs is None:
                        return
                    t = fs[s[1]]

    def topmod(self):
        if self.frames:
            return self.frames[-1].fn.module
        return self.modules[0]

    def load(self, st, p, ty, line=0, chk=True):
        res = None
        al = alts(p)
        if isinstance(p, Undef):
            if self.dry:
                return Undef() if ty == PTR else fresh("undef", sort_of(ty))
            raise Unsupported("load through undefined pointer line %d" % line)
        for n, (g, q) in enumerate(reversed(al)):
            if q.region.kind == "null":
                if chk:
                    s2 = State(st.pc + (g,), None)
                    self.oblige("non-null dereference", s2, z3.BoolVal(False), line, "safety")
                continue
            s2 = st if len(al) == 1 else State(st.pc + (g,), st.mem)
            if chk and not getattr(q.region, "opaque", False):
                self.check_bounds(s2, q, ty, line, "read")
            v = self.load1(st, q, ty)
            res = v if res is None else ite(g, v, res)
        if res is None:
            if ty == PTR:
                return UNDEF
            return fresh("nulload", sort_of(ty))
        return res

    def load1(self, st, q, ty):
        r = q.region
        if getattr(r, "opaque", False):  # a va_list and what it leads to: contents unknown
            if ty == PTR:
                n = self.region(freshname("opaque"), kind="param")
                n.opaque = True
                return Ptr(n)
            return fresh("opaque", sort_of(ty))
        if self.punfresh:
            self.check_type(r, q.path, ty)
            if getattr(r, "punned", False) and ty != PTR:  # accessed at two types: contents unknown
                return fresh("punned", sort_of(ty))
        if r.scalar and q.path == ():
            self.check_type(r, (), ty)
            return self.getmem(st, (r.name, (), ty))
        self.check_type(r, q.path, ty)
        m = self.getmem(st, (r.name, q.path, ty))
        v = m.read(q.idx)
        if ty == PTR and isinstance(v, Ptr) and v.region.kind == "derived":
            pass
        return v

    def store(self, st, p, ty, v, line=0, chk=True):
        if isinstance(p, Undef):
            if self.dry:
                return
            raise Unsupported("store through undefined pointer (line %s)" % line)
        al = alts(p)
        for g, q in al:
            if q.region.kind == "null":
                s2 = State(st.pc + (g,), None)
                self.oblige("non-null dereference", s2, z3.BoolVal(False), line, "safety")
                continue
            guard = None if len(al) == 1 else g
            s2 = st if guard is None else State(st.pc + (g,), st.mem)
            r = q.region
            if getattr(r, "opaque", False):
                continue
            if chk:
                self.check_bounds(s2, q, ty, line, "write")
            self.check_type(r, q.path, ty)
            key = (r.name, q.path, ty)
            if self.trace_store is not None and not self.dry:
                self.trace_store(self, s2, q, ty, v, line)
            if r.scalar and q.path == ():
                old = self.getmem(st, key) if guard is not None else None
                self.setmem(st, key, v if guard is None else ite(guard, v, old))
            else:
                m = self.getmem(st, key)
                if isinstance(v, Undef):
                    v = NULL if ty == PTR else fresh("undef", sort_of(ty))
                self.setmem(st, key, Store(m, q.idx, v, guard))

    # ------------------------------------------------------------ merging
    def merge(self, states):
        """states: list of State; returns merged State"""
        if len(states) == 1:
            return states[0].copy()
        pc, guards = merge_pc([s.pc for s in states])
        keys = set()
        for s in states:
            keys.update(s.mem.keys())
        out = State(pc, {})
        for k in keys:
            vals = [s.mem.get(k) for s in states]
            vals = [v if v is not None else self.init_val(k) for v in vals]
            v = vals[-1]
            for g, w in zip(reversed(guards[:-1]), reversed(vals[:-1])):
                if isinstance(v, Mem) or isinstance(w, Mem):
                    if v is not w:
                        v = IteMem(g, w, v)
                else:
                    v = ite(g, w, v)
            out.mem[k] = v
        return out

    # ------------------------------------------------------------ operands
    def const(self, c, ty, fr):
        k = c.k
        if k == "int":
            if ty == I1:
                return z3.BoolVal(c.v != 0)
            return iv(c.v)
        if k == "fp":
            return z3.RealVal(c.v)
        if k == "fpspecial":
            return fresh("fpspecial", RealS)
        if k in ("true", "false"):
            return z3.BoolVal(k == "true")
        if k == "null":
            return NULL
        if k == "zeroinitializer":
            if ty == PTR:
                return NULL
            if ty[0] in ("f", "f32"):
                return z3.RealVal(0)
            if ty == I1:
                return z3.BoolVal(False)
            return iv(0)
        if k in ("undef", "poison"):
            return UNDEF if ty == PTR else fresh("undef", sort_of(ty))
        if k == "global":
            return self.global_ptr(c.v, fr)
        if k == "gep":
            ety, base, idx = c.v
            return self.gep(self.val(base, PTR, fr), ety, [self.val(v, t, fr) for t, v in idx], fr)
        if k == "cast":
            return self.val(c.v[2], c.v[1], fr)
        raise Unsupported("const " + k)

    def global_ptr(self, name, fr):
        mod = fr.fn.module
        if name in mod.globals:
            ty, init, isc = mod.globals[name]
            nm = "@" + name
            if nm not in self.regions:
                r = self.region(nm, kind="global", ety=ty)
                if init is not None and init.k == "str":
                    r.content = decode_cstr(init.v)
                    r.types[("a",)] = I8
                elif ty[0] in ("i", "f", "f32", "ptr"):
                    r.scalar = True
                    r.types[()] = ty
                    if isc and init is not None and init.k in ("int", "fp"):
                        self.initial[(nm, (), ty)] = self.const(init, ty, fr)
                elif isc and init is not None and init.k == "agg":
                    self.init_const_agg(r, ty, init, fr)
            return Ptr(self.regions[nm], ())
        return FnPtr(name)

    def init_const_agg(self, r, ty, init, fr):
        if ty[0] == "arr" and ty[2][0] in ("i", "f", "f32"):
            vals = [self.const(c, ty[2], fr) for c in init.v]

            def fn(i0, i, vals=vals):
                i = simp(i)
                if z3.is_int_value(i) and 0 <= i.as_long() < len(vals):
                    return vals[i.as_long()]
                v = vals[-1]
                for k in range(len(vals) - 2, -1, -1):
                    v = z3.If(i == k, vals[k], v)
                return v

            self.initial[(r.name, ("a",), ty[2])] = Base(fn)

    def val(self, v, ty, fr):
        if isinstance(v, Const):
            return self.const(v, ty, fr)
        if isinstance(v, tuple) and v[0] == "r":
            x = fr.env.get(v[1])
            if x is None:
                raise Unsupported("undefined ssa %s" % v[1])
            return x
        raise Unsupported("operand %r" % (v,))

    def gep(self, p, ety, idx, fr):
        if isinstance(p, Alt):
            return Alt([(g, self.gep(q, ety, idx, fr)) for g, q in p.alts])
        if isinstance(p, Undef):
            return p
        if isinstance(p, FnPtr):
            raise Unsupported("gep on fnptr")
        r = p.region
        if r.kind == "null":
            return p
        path, ix = p.path, list(p.idx)
        i0 = idx[0]
        if ety[0] in ("struct", "arr") and path == () and r.ety is None and r.kind in ("param", "derived", "malloc"):
            r.ety = ety
        # the first index moves along the current array position
        z0 = z3.is_int_value(i0) and i0.as_long() == 0
        if not z0:
            if path == () or path[-1] == "a":
                # element size must match the stride of the position
                if path == ():
                    if r.ety is not None and r.ety != ety:
                        et = r.ety
                        # pointer to first element of inner array of an array-typed region
                        while et[0] == "arr" and et != ety:
                            path = path + ("a",)
                            ix.append(iv(0))
                            et = et[2]
                        if et != ety:
                            raise Unsupported("stride mismatch %s vs %s on %s" % (ety, r.ety, r.name))
                    if r.ety is None and ety[0] in ("i", "f", "f32", "ptr"):
                        self.check_type(r, (), ety)
                elif r.ety is not None:
                    t = r.ety
                    m = fr.fn.module
                    for s in path:
                        if s == "a":
                            if t[0] != "arr":
                                t = None
                                break
                            t = t[2]
                        else:
                            fs = m.structs.get(t[1]) if t[0] == "struct" else t[1]
                            t = fs[s[1]]
                    while t is not None and t[0] == "arr" and t != ety:
                        path = path + ("a",)
                        ix.append(iv(0))
                        t = t[2]
                    if t is not None and t != ety:
                        raise Unsupported("stride mismatch %s vs %s on %s" % (ety, t, r.name))
                ix[-1] = simp(ix[-1] + i0)
            else:
                raise Unsupported("pointer arithmetic on field")
        t = ety
        m = fr.fn.module
        for i in idx[1:]:
            if t[0] == "struct" or t[0] == "lit":
                if not z3.is_int_value(i):
                    raise Unsupported("symbolic field")
                k = i.as_long()
                path = path + (("f", k),)
                fs = m.structs[t[1]] if t[0] == "struct" else t[1]
                t = fs[k]
            elif t[0] == "arr":
                path = path + ("a",)
                ix.append(i)
                t = t[2]
            else:
                raise Unsupported("gep into %s" % (t,))
        return Ptr(r, path, ix)

    def leaf0(self, p, ty, fr):
        """pointer to aggregate used as pointer to its first scalar (array decay at constant 0)"""
        return p

    # ------------------------------------------------------------ arithmetic
    def tobool(self, v):
        if z3.is_bool(v):
            return v
        return v != 0

    def toint(self, v):
        if z3.is_bool(v):
            return z3.If(v, iv(1), iv(0))
        return v

    def cdiv(self, a, b):
        """C truncated division"""
        if z3.is_int_value(b) and b.as_long() > 0:
            if z3.is_int_value(a):
                x, y = a.as_long(), b.as_long()
                return iv(x // y if x >= 0 else -((-x) // y))
            return z3.If(a >= 0, a / b, -((-a) / b))
        return z3.If(b > 0, z3.If(a >= 0, a / b, -((-a) / b)), z3.If(a >= 0, -(a / (-b)), (-a) / (-b)))

    def cmod(self, a, b):
        if z3.is_int_value(b) and b.as_long() > 0:
            if z3.is_int_value(a):
                x, y = a.as_long(), b.as_long()
                return iv(x % y if x >= 0 else -((-x) % y))
            return z3.If(a >= 0, a % b, -((-a) % b))
        ab = z3.If(b > 0, b, -b)
        return z3.If(a >= 0, a % ab, -((-a) % ab))

    def binop(self, I, a, b, st):
        op = I.op
        ty = I.ty
        if op[0] == "f" and op in ("fadd", "fsub", "fmul", "fdiv", "frem"):
            if self.fpmode == "uf":
                f = z3.Function("fp_" + op, RealS, RealS, RealS)
                if op in ("fadd", "fmul") and a.get_id() > b.get_id():
                    a, b = b, a
                return f(a, b)
            if op == "fadd":
                return a + b
            if op == "fsub":
                return a - b
            if op == "fmul":
                return a * b
            if op == "fdiv":
                if self.divcheck and not is_num(b):
                    self.oblige("division by zero", st, b != 0, I.line, "safety")
                return a / b
            raise Unsupported("frem")
        if ty == I1:
            a, b = self.tobool(a), self.tobool(b)
            if op == "and":
                return z3.And(a, b)
            if op == "or":
                return z3.Or(a, b)
            if op == "xor":
                return z3.Xor(a, b)
            raise Unsupported("i1 " + op)
        a, b = self.toint(a), self.toint(b)
        if isinstance(a, (Ptr, Alt)) or isinstance(b, (Ptr, Alt)):
            if op == "sub":
                d = self.ptrdiff(a, b)
                if d is not None:
                    return d
            raise Unsupported("integer arithmetic on pointers")
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
        elif op in ("sdiv", "udiv"):
            self.oblige("division by zero", st, b != 0, I.line, "safety")
            if self.natdiv:
                self.oblige("division of natural numbers", st, And(a >= 0, b > 0), I.line, "safety")
                r = a / b
            else:
                r = self.cdiv(a, b)
        elif op in ("srem", "urem"):
            self.oblige("modulo by zero", st, b != 0, I.line, "safety")
            if self.natdiv:
                self.oblige("division of natural numbers", st, And(a >= 0, b > 0), I.line, "safety")
                r = a % b
            else:
                r = self.cmod(a, b)
        elif op == "shl" and z3.is_int_value(b):
            r = a * (2 ** b.as_long())
        elif op == "ashr" and z3.is_int_value(b):
            r = a / (2 ** b.as_long())
        elif op == "lshr" and z3.is_int_value(b):
            r = a / (2 ** b.as_long())
        elif op == "and" and z3.is_int_value(b) and b.as_long() in (1, 3, 7, 15, 255, 65535):
            r = a % (b.as_long() + 1)
        elif op == "and" and z3.is_int_value(simp(a)) and z3.is_int_value(simp(b)):
            r = iv(simp(a).as_long() & simp(b).as_long())
        elif op == "or" and z3.is_int_value(simp(a)) and z3.is_int_value(simp(b)):
            r = iv(simp(a).as_long() | simp(b).as_long())
        elif op in ("and", "or", "xor"):
            r = z3.Function("bit_" + op, IntS, IntS, IntS)(a, b)
            if op == "or":
                self.fact(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r >= a, r >= b, r <= a + b)))
                self.fact(z3.Implies(z3.And(a >= 0, b >= 0, a <= 1, b <= 1), r <= 1))
            elif op == "and":
                self.fact(z3.Implies(z3.And(a >= 0, b >= 0), z3.And(r >= 0, r <= a, r <= b)))
        else:
            raise Unsupported("int op " + op)
        if z3.is_int_value(a) and z3.is_int_value(b):
            r = simp(r)
        return r

    def wrap(self, v, n):
        h = 2 ** (n - 1)
        return (v + h) % (2 * h) - h

    def cast(self, I, v, st):
        op = I.op
        src, dst = I.a[0], I.ty
        if op == "sext":
            return self.toint(v) if src != I1 else z3.If(v, iv(-1), iv(0))
        if op == "zext":
            if src == I1:
                return z3.If(self.tobool(v), iv(1), iv(0))
            if src[1] in (8, 16):
                if z3.is_int_value(v):
                    return iv(v.as_long() % 2 ** src[1])
                return z3.If(v < 0, v + 2 ** src[1], v)
            return self.toint(v)
        if op == "trunc":
            v = self.toint(v)
            if dst == I1:
                return v % 2 == 1
            if dst[1] in (8, 16):
                if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_ITE and is_num(v.arg(1)) and is_num(v.arg(2)):
                    return v
                return simp(self.wrap(v, dst[1]))
            return v
        if op in ("sitofp", "uitofp"):
            v = self.toint(v)
            if z3.is_int_value(v):
                return z3.RealVal(v.as_long())
            return z3.ToReal(v)
        if op in ("fptosi", "fptoui"):
            i = as_int(v)
            if i is not None:
                return i
            return self.trunc_real(v)
        if op == "fpext":
            return v
        if op == "fptrunc":
            i = as_int(v)
            if i is not None and z3.is_int_value(simp(i)):
                return v
            if self.exact32:
                return v
            f = z3.Function("rnd32", RealS, RealS)
            return f(v)
        if op == "bitcast":
            return v
        if op == "ptrtoint":
            return v
        if op == "inttoptr":
            return v
        raise Unsupported("cast " + op)

    def trunc_real(self, v):
        return z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))

    def ptrdiff(self, a, b):
        """distance in bytes of two pointers into the same block (unspecified for null)"""
        if isinstance(a, Alt):
            v = None
            for g, q in reversed(alts(a)):
                d = fresh("nulldiff", IntS) if q.region.kind == "null" else self.ptrdiff(q, b)
                if d is None:
                    return None
                v = d if v is None else z3.If(g, d, v)
            return v
        if not (isinstance(a, Ptr) and isinstance(b, Ptr)) or a.region is not b.region or a.path != b.path or a.path != ():
            return None
        ty = a.region.types.get(())
        if ty is None or len(a.idx) != len(b.idx) or any(not simp(x == y).eq(z3.BoolVal(True)) for x, y in zip(a.idx[:-1], b.idx[:-1])):
            return None
        return simp((a.idx[-1] - b.idx[-1]) * self.topmod().sizeof(ty))

    def ceil_real(self, v, st):
        i = as_int(v)
        if i is not None:
            return v
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DIV:
            a, b = as_int(v.arg(0)), as_int(v.arg(1))
            if a is not None and b is not None:
                f = z3.Function("ceildiv", IntS, IntS, IntS)
                q = f(a, b)
                self.fact(z3.Implies(b > 0, z3.And((q - 1) * b < a, a <= q * b)))
                return z3.ToReal(q)
        return z3.ToReal(-z3.ToInt(-v))

    def floor_real(self, v, st):
        i = as_int(v)
        if i is not None:
            return v
        if z3.is_app(v) and v.decl().kind() == z3.Z3_OP_DIV:
            a, b = as_int(v.arg(0)), as_int(v.arg(1))
            if a is not None and b is not None:
                f = z3.Function("floordiv", IntS, IntS, IntS)
                q = f(a, b)
                self.fact(z3.Implies(b > 0, z3.And(q * b <= a, a < (q + 1) * b)))
                return z3.ToReal(q)
        return z3.ToReal(z3.ToInt(v))

    def icmp(self, pred, ty, a, b, st):
        if ty == PTR or isinstance(a, (Ptr, Alt, Undef, FnPtr)):
            return self.pcmp(pred, a, b)
        if ty == I1:
            a, b = self.tobool(a), self.tobool(b)
            return a == b if pred == "eq" else a != b
        a, b = self.toint(a), self.toint(b)
        # (If c 1 0) != 0
        if z3.is_int_value(b) and pred in ("eq", "ne") and z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            x, y = a.arg(1), a.arg(2)
            if z3.is_int_value(x) and z3.is_int_value(y):
                xb, yb = x.as_long() == b.as_long(), y.as_long() == b.as_long()
                if pred == "ne":
                    xb, yb = not xb, not yb
                c = a.arg(0)
                if xb and yb:
                    return z3.BoolVal(True)
                if not xb and not yb:
                    return z3.BoolVal(False)
                return c if xb else z3.Not(c)
        p = pred.lstrip("su") if pred not in ("eq", "ne") else pred
        if pred[0] == "u" and ty[1] in (8, 16):
            m = 2 ** ty[1]
            a = a if z3.is_int_value(a) and a.as_long() >= 0 else z3.If(a < 0, a + m, a)
            b = b if z3.is_int_value(b) and b.as_long() >= 0 else z3.If(b < 0, b + m, b)
        return {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b,
                "gt": lambda: a > b, "ge": lambda: a >= b}[p]()

    def isnull(self, p):
        if isinstance(p, Undef):
            return fresh("undefnull", BoolS)
        if isinstance(p, FnPtr):
            return z3.BoolVal(False)
        r = p.region
        if r.kind == "null":
            return z3.BoolVal(True)
        if r.kind == "derived":
            if r.nullfn is None:
                if r.nprefix == 0:
                    c = z3.Const("isnull_" + r.name, BoolS)
                    r.nullfn = lambda: c
                else:
                    f = z3.Function("isnull_" + r.name, *([IntS] * r.nprefix + [BoolS]))
                    r.nullfn = f
            return r.nullfn(*p.idx[: r.nprefix])
        if r.nullfn is not None:
            return r.nullfn()
        return z3.BoolVal(False)

    def pcmp(self, pred, a, b):
        if pred not in ("eq", "ne"):
            ps, qs = alts(a), alts(b)
            if len(ps) == 1 and len(qs) == 1 and ps[0][1].region is qs[0][1].region:
                x, y = ps[0][1].idx[-1], qs[0][1].idx[-1]
                return {"ult": x < y, "ule": x <= y, "ugt": x > y, "uge": x >= y}[pred]
            raise Unsupported("pointer order comparison")
        if isinstance(a, (Undef, FnPtr)) or isinstance(b, (Undef, FnPtr)):
            c = fresh("pcmp", BoolS)
            return c
        cases = []
        for g, p in alts(a):
            for h, q in alts(b):
                if p.region.kind == "null" or q.region.kind == "null":
                    e = self.isnull(q) if p.region.kind == "null" else self.isnull(p)
                elif p.region is q.region and p.path == q.path:
                    e = idx_eq(p.idx, q.idx)
                else:
                    e = z3.BoolVal(False)
                cases.append(And(g, h, e))
        e = simp(Or(*cases))
        return e if pred == "eq" else z3.Not(e)

    # ------------------------------------------------------------ execution
    def run_function(self, fn, args, st, parent=None):
        """executes fn from st; returns (state, retval) merged over returns, or (None,None) if never returns"""
        self.fid += 1
        fr = Frame(fn, self.fid if parent is not None or self.frames else 0, parent)
        self.frames.append(fr)
        try:
            for (ty, nm, at), a in zip(fn.params, args):
                fr.env[nm] = a
            succ, rpo, num, pred, loops = cfg_info(fn)
            rets = []
            exits = self.run_region(fr, set(rpo), rpo[0], [(None, st)], rets, None)
            if not rets:
                return None, None
            out = self.merge([s for s, v in rets])
            if fn.ret == VOID:
                return out, None
            pcs, guards = merge_pc([s.pc for s, v in rets])
            v = rets[-1][1]
            for g, (s, w) in zip(reversed(guards[:-1]), reversed(rets[:-1])):
                v = ite(g, w, v)
            return out, v
        finally:
            self.frames.pop()

    def run_region(self, fr, blocks, entry, incoming, rets, loophdr):
        """runs the acyclic region; returns exits {dst: [(src,state)]} for edges leaving `blocks`
        or going back to loophdr"""
        succ, rpo, num, pred, loops = cfg_info(fr.fn)
        inq = {entry: list(incoming)}
        exits = {}
        order = sorted(blocks, key=lambda b: num[b])
        done = set()
        for b in order:
            if b in done or b not in inq:
                continue
            ins = inq.pop(b)
            if b in loops and b != loophdr:
                ex = self.run_loop(fr, b, ins, rets)
                done |= loops[b]
                for dst, l in ex.items():
                    if dst in blocks and dst != loophdr:
                        inq.setdefault(dst, []).extend(l)
                    else:
                        exits.setdefault(dst, []).extend(l)
                continue
            for dst, src, s in self.run_block(fr, b, ins, rets):
                if dst in blocks and dst != loophdr:
                    inq.setdefault(dst, []).append((src, s))
                else:
                    exits.setdefault(dst, []).append((src, s))
        return exits

    def run_block(self, fr, b, incoming, rets):
        insl = fr.fn.blocks[b]
        k = 0
        # phis
        phis = []
        while insl[k].op == "phi":
            I = insl[k]
            pcs, guards = merge_pc([s.pc for _, s in incoming]) if len(incoming) > 1 else (None, [z3.BoolVal(True)])
            v = None
            m = {bb: x for x, bb in I.a}
            for g, (src, s) in reversed(list(zip(guards, incoming))):
                w = self.val(m[src], I.ty, fr)
                v = w if v is None else ite(g, w, v)
            phis.append((I.res, v))
            k += 1
        for r, v in phis:
            fr.env[r] = simp(v) if z3.is_expr(v) else v
        st = self.merge([s for _, s in incoming])
        # more than one state per incoming src is fine
        for I in insl[k:]:
            op = I.op
            if op == "br":
                if I.a[0] is None:
                    return [(I.a[1], b, st)]
                c = self.tobool(self.val(I.a[0], I1, fr))
                c = simp(c)
                out = []
                if I.a[1] == I.a[2]:
                    return [(I.a[1], b, st)]
                if self.dry and not self.dryprune:
                    pass
                else:
                    if z3.is_true(c):
                        return [(I.a[1], b, st)]
                    if z3.is_false(c):
                        return [(I.a[2], b, st)]
                    nc = simp(z3.Not(c))
                    for x in st.pc:
                        if x.eq(c):
                            return [(I.a[1], b, st)]
                        if x.eq(nc):
                            return [(I.a[2], b, st)]
                s1 = st.copy()
                s2 = st
                s1.pc = s1.pc + (c,)
                s2.pc = s2.pc + (simp(z3.Not(c)),)
                return [(I.a[1], b, s1), (I.a[2], b, s2)]
            if op == "switch":
                v = self.toint(self.val(I.a[0], I.ty, fr))
                out = []
                rest = st.pc
                bydst = {}
                neg = []
                for cv, dst in I.a[2]:
                    c = simp(v == self.const(cv, I.ty, fr))
                    bydst.setdefault(dst, []).append(c)
                    neg.append(z3.Not(c))
                for dst, cs in bydst.items():
                    if dst == I.a[1]:
                        continue
                    s1 = st.copy()
                    s1.pc = s1.pc + (simp(Or(*cs)),)
                    out.append((dst, b, s1))
                s1 = st.copy()
                dcs = [z3.Not(c) for d, cs in bydst.items() if d != I.a[1] for c in cs]
                s1.pc = s1.pc + (simp(And(*dcs)),)
                out.append((I.a[1], b, s1))
                return [o for o in out if self.dry or not z3.is_false(o[2].pc[-1])]
            if op == "ret":
                v = None if I.a is None else self.val(I.a, I.ty, fr)
                rets.append((st, v))
                return []
            if op == "unreachable":
                return []
            st = self.exec_ins(fr, I, st)
            if st is None:
                return []
        raise Unsupported("block without terminator")

    def exec_ins(self, fr, I, st):
        op = I.op
        env = fr.env
        if op == "alloca":
            nm = "%s#%d.%s" % (fr.fn.name, fr.fid, I.res)
            r = self.region(nm, kind="alloca", ety=I.ty)
            r.types = {}
            if I.a is not None and not (isinstance(I.a[1], Const) and I.a[1].v == 1):
                n = self.val(I.a[1], I.a[0], fr)
                r.length = lambda *p, n=n: n
                r.ety = I.ty if I.ty[0] in ("struct", "arr") else None
            elif I.ty[0] in ("i", "f", "f32", "ptr", "f80"):
                r.scalar = True
            # re-execution: fresh content
            for k in [k for k in st.mem if k[0] == nm]:
                del st.mem[k]
            for k in [k for k in self.initial if k[0] == nm]:
                del self.initial[k]
            fr.allocas[I.res] = r
            env[I.res] = Ptr(r)
        elif op == "load":
            p = self.val(I.a, PTR, fr)
            p = self.decay(p, I.ty, fr)
            v = self.load(st, p, I.ty, I.line)
            env[I.res] = v
        elif op == "store":
            v = self.val(I.a[0], I.ty, fr)
            p = self.decay(self.val(I.a[1], PTR, fr), I.ty, fr)
            if I.ty[0] == "i" and I.ty != I1 and z3.is_expr(v):
                v = self.toint(v)
            if I.ty[0] == "i" and I.ty[1] > 1 and not z3.is_expr(v):
                if isinstance(v, (Ptr, Alt)):
                    raise Unsupported("pointer stored as integer")
            self.store(st, p, I.ty, v, I.line)
        elif op == "getelementptr":
            p = self.val(I.a[0], PTR, fr)
            env[I.res] = self.gep(p, I.ty, [self.toint(self.val(v, t, fr)) for t, v in I.a[1]], fr)
        elif op in ("add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "shl", "ashr", "lshr", "and", "or", "xor",
                    "fadd", "fsub", "fmul", "fdiv", "frem"):
            env[I.res] = self.binop(I, self.val(I.a[0], I.ty, fr), self.val(I.a[1], I.ty, fr), st)
        elif op == "fneg":
            env[I.res] = -self.val(I.a, I.ty, fr)
        elif op == "icmp":
            env[I.res] = self.icmp(I.a[0], I.ty, self.val(I.a[1], I.ty, fr), self.val(I.a[2], I.ty, fr), st)
        elif op == "fcmp":
            pred = I.a[0]
            a, b = self.val(I.a[1], I.ty, fr), self.val(I.a[2], I.ty, fr)
            p = pred[1:]
            if pred == "true" or pred == "false":
                env[I.res] = z3.BoolVal(pred == "true")
            else:
                env[I.res] = {"eq": lambda: a == b, "ne": lambda: a != b, "lt": lambda: a < b, "le": lambda: a <= b,
                              "gt": lambda: a > b, "ge": lambda: a >= b, "no": lambda: z3.BoolVal(False),
                              "rd": lambda: z3.BoolVal(True)}[p]()
        elif op in ("sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "bitcast",
                    "ptrtoint", "inttoptr"):
            env[I.res] = self.cast(I, self.val(I.a[1], I.a[0], fr), st)
        elif op == "select":
            c = self.tobool(self.val(I.a[0], I1, fr))
            env[I.res] = ite(c, self.val(I.a[1], I.ty, fr), self.val(I.a[2], I.ty, fr))
        elif op == "freeze":
            env[I.res] = self.val(I.a, I.ty, fr)
        elif op == "call":
            return self.exec_call(fr, I, st)
        else:
            raise Unsupported("exec " + op)
        return st

    def decay(self, p, ty, fr):
        """adjust a pointer to an aggregate used to access its first scalar"""
        if isinstance(p, Alt):
            return Alt([(g, self.decay(q, ty, fr)) for g, q in p.alts])
        if not isinstance(p, Ptr) or p.region.kind == "null":
            return p
        t = p.region.ety
        if t is None:
            return p
        m = fr.fn.module
        try:
            for s in p.path:
                if s == "a":
                    t = t[2]
                else:
                    fs = m.structs.get(t[1]) if t[0] == "struct" else t[1]
                    t = fs[s[1]]
        except Exception:
            return p
        path, ix = p.path, list(p.idx)
        while t[0] in ("struct", "lit", "arr"):
            if t[0] == "arr":
                path = path + ("a",)
                ix.append(iv(0))
                t = t[2]
            else:
                fs = m.structs.get(t[1]) if t[0] == "struct" else t[1]
                path = path + (("f", 0),)
                t = fs[0]
        return Ptr(p.region, path, ix)

    # ------------------------------------------------------------ calls
    def alt_cases(self, a):
        out, neg = [], []
        for g, q in a.alts:
            gg = z3.BoolVal(True) if g is True else g
            if isinstance(q, Alt):
                for g2, q2 in self.alt_cases(q):
                    out.append((And(gg, g2, *neg), q2))
            else:
                out.append((And(gg, *neg), q))
            neg.append(z3.Not(gg))
        return out

    def call_contract(self, c, fr, I, st, name, av):
        for n, a in enumerate(av):
            if isinstance(a, Alt):
                outs = []
                for g, q in self.alt_cases(a):
                    s2 = st.copy()
                    s2.assume_pc(g)
                    s3 = self.call_contract(c, fr, I, s2, name, av[:n] + [q] + av[n + 1:])
                    if s3 is not None:
                        outs.append(s3)
                return self.merge(outs) if outs else None
        ctx = CallCtx(self, fr, I, st, name, av)
        c(ctx)
        return None if ctx.noreturn else ctx.st

    def decay_arr(self, p, fr):
        if isinstance(p, Alt):
            return Alt([(g, self.decay_arr(q, fr)) for g, q in p.alts])
        if isinstance(p, Ptr) and p.region.ety is not None and p.region.ety[0] == "arr" and p.path == ():
            t, path, ix = p.region.ety, p.path, list(p.idx)
            while t[0] == "arr":
                path = path + ("a",)
                ix.append(iv(0))
                t = t[2]
            return Ptr(p.region, path, ix)
        return p

    def exec_call(self, fr, I, st):
        callee, args = I.a
        if callee[0] == "@":
            name = callee[1:].strip('"')
        else:
            fv = fr.env.get(callee[1:].strip('"'))
            if isinstance(fv, FnPtr):
                name = fv.name
            else:
                raise Unsupported("indirect call")
        if name.startswith("llvm.dbg") or name.startswith("llvm.lifetime") or name.startswith("llvm.stackrestore"):
            return st
        av = [self.val(v, t, fr) if v is not None else None for t, v, at in args]
        # byval
        for n, (t, v, at) in enumerate(args):
            if "byval" in at and isinstance(av[n], Ptr):
                self.fid += 1
                r = self.region("byval#%d" % self.fid, kind="alloca", ety=at["byval"])
                self.memcpy(st, Ptr(r), av[n], None, fr, ety=at["byval"])
                av[n] = Ptr(r)
        self.called.add(name)
        c = self.contracts.get(name)
        if c is not None:
            av = [self.decay_arr(a, fr) for a in av]
            for n, a in enumerate(av):
                if isinstance(a, Alt) and I.res is None:
                    outs = []
                    for g, q in self.alt_cases(a):
                        s2 = st.copy()
                        s2.assume_pc(g)
                        if q.region.kind == "null" if isinstance(q, Ptr) else True:
                            self.oblige("call %s: pointer argument is not null" % name, s2, z3.BoolVal(False), I.line, "bounds")
                            continue
                        s3 = self.call_contract(c, fr, I, s2, name, av[:n] + [q] + av[n + 1:])
                        if s3 is not None:
                            outs.append(s3)
                    return self.merge(outs) if outs else None
            ctx = CallCtx(self, fr, I, st, name, av)
            r = c(ctx)
            if ctx.noreturn:
                return None
            if I.res is not None:
                if r is None:
                    r = self.fresh_of(I.ty, "ret_" + name)
                fr.env[I.res] = r
            return ctx.st
        if name in self.noreturn:
            if self.exit_hook is not None and not self.dry:
                self.exit_hook(self, st, name, av, I)
            return None
        if name in self.ignored:
            if I.res is not None:
                fr.env[I.res] = self.fresh_of(I.ty, "ret_" + name)
            return st
        b = getattr(self, "b_" + name.replace(".", "_"), None)
        if b is None and name.startswith("llvm."):
            if name.startswith("llvm.stacksave"):
                b = lambda fr, I, st, a: NULL
            elif name.startswith("llvm.memcpy") or name.startswith("llvm.memmove"):
                b = self.b_memcpy
            elif name.startswith("llvm.memset"):
                b = self.b_memset
            elif name.startswith("llvm.fabs"):
                b = self.b_fabs
            elif name.startswith("llvm.fmuladd"):
                b = lambda fr, I, st, a: a[0] * a[1] + a[2]
            elif name.startswith("llvm.ceil"):
                b = self.b_ceil
            elif name.startswith("llvm.floor"):
                b = self.b_floor
            elif name.startswith("llvm.sqrt"):
                b = self.b_sqrt
            elif name.startswith("llvm.abs"):
                b = self.b_abs
        if b is not None:
            r = b(fr, I, st, av)
            if I.res is not None:
                fr.env[I.res] = r if r is not None else self.fresh_of(I.ty, "ret_" + name)
            return st
        if name in MATHUF:
            f = z3.Function("m_" + name, *([RealS] * (len(av) + 1)))
            fr.env[I.res] = f(*av)
            return st
        # inline
        fn = None
        for m in [fr.fn.module] + list(self.modules):
            if name in m.raw and name not in self.noinline:
                fn = m.func(name)
                break
        if fn is None:
            raise Unsupported("call to %s without contract" % name)
        if name in fr.callpath:
            raise Unsupported("recursion through %s" % name)
        if len(self.frames) > 12:
            raise Unsupported("inline depth")
        self.inlined.add(name)
        parent = Frame.__new__(Frame)
        parent.callpath = fr.callpath + ((I.line, I.res or "", I.txt.count("")),)
        sub = Frame(fn, 0, parent)
        callp = fr.callpath + (id(I),)
        fake = Frame.__new__(Frame)
        fake.callpath = callp
        # keep the frame id of a call site stable so that dry and real runs agree
        out, rv = self.run_inlined(fn, av, st, fake)
        if out is None:
            return None
        if I.res is not None:
            fr.env[I.res] = rv
        return out

    def run_inlined(self, fn, av, st, parent):
        key = parent.callpath + (fn.name,)
        if not hasattr(self, "_fids"):
            self._fids = {}
        if key not in self._fids:
            self._fids[key] = len(self._fids) + 1
        fr = Frame(fn, self._fids[key], parent)
        self.frames.append(fr)
        try:
            for (ty, nm, at), a in zip(fn.params, av):
                fr.env[nm] = a
            succ, rpo, num, pred, loops = cfg_info(fn)
            rets = []
            self.run_region(fr, set(rpo), rpo[0], [(None, st)], rets, None)
            if not rets:
                return None, None
            out = self.merge([s for s, v in rets])
            if fn.ret == VOID:
                return out, None
            pcs, guards = merge_pc([s.pc for s, v in rets]) if len(rets) > 1 else (None, [None])
            v = rets[-1][1]
            for g, (s, w) in zip(reversed(guards[:-1]), reversed(rets[:-1])):
                v = ite(g, w, v)
            return out, v
        finally:
            self.frames.pop()

    def fresh_of(self, ty, nm):
        if ty == VOID:
            return None
        if ty == PTR:
            r = self.region(freshname(nm), kind="derived")
            return Ptr(r)
        return fresh(nm, sort_of(ty))

    # ------------------------------------------------------------ builtins
    def site_block(self, I):
        """one unknown block per allocation site: contents are never relied on"""
        r = self.region("site_l%d" % I.line, kind="malloc")
        r.punned = True
        return Ptr(r)

    def b_malloc(self, fr, I, st, a):
        if self.punfresh:
            return self.site_block(I)
        r = self.region(freshname("malloc_l%d" % I.line), kind="malloc")
        r.bytes = a[0]
        return Ptr(r)

    def b_calloc(self, fr, I, st, a):
        if self.punfresh:
            return self.site_block(I)
        r = self.region(freshname("calloc_l%d" % I.line), kind="malloc")
        r.bytes = a[0] * a[1]
        r.zero = True
        return Ptr(r)

    def b_memcpy(self, fr, I, st, a):
        self.memcpy(st, a[0], a[1], simp(a[2]), fr)
        return a[0]

    def b_memset(self, fr, I, st, a):
        p = a[0]
        if not isinstance(p, Ptr):
            raise Unsupported("memset on alternatives")
        c = simp(a[1])
        if not (z3.is_int_value(c) and c.as_long() == 0):
            raise Unsupported("memset non-zero")
        m = fr.fn.module
        ety = p.region.ety
        if ety is None and p.region.types:
            ety = list(p.region.types.values())[0]
        if ety is None:
            raise Unsupported("memset untyped")
        n = simp(a[2])
        for path, ty in m.leaves(ety, ()):
            key = (p.region.name, path, ty)
            if p.path != () and path[: len(p.path)] != p.path:
                continue
            zero = NULL if ty == PTR else (z3.RealVal(0) if ty[0] in ("f", "f32") else iv(0))
            sz = m.sizeof(ety)
            self.check_type(p.region, path, ty)
            if p.region.scalar:
                self.setmem(st, key, zero)
                continue
            i0 = p.idx[p.region.nprefix]
            if p.path == ():
                cnt = self.divexact(n, sz)
                self.setmem(st, key, Bulk(self.getmem(st, key), lambda *ix, i0=i0, cnt=cnt, np=p.region.nprefix: And(
                    ix[np] >= i0, ix[np] < i0 + cnt), lambda *ix, z=zero: z))
            else:
                self.setmem(st, key, Bulk(self.getmem(st, key), lambda *ix, i0=i0, np=p.region.nprefix: ix[np] == i0,
                                          lambda *ix, z=zero: z))
        return p

    def divexact(self, n, sz):
        n = simp(n)
        if z3.is_int_value(n):
            return iv(n.as_long() // sz)
        if sz == 1:
            return n
        # syntactic: sz * t
        if z3.is_app(n) and n.decl().kind() == z3.Z3_OP_MUL and z3.is_int_value(n.arg(0)) and n.arg(0).as_long() % sz == 0:
            k = n.arg(0).as_long() // sz
            r = iv(k)
            for x in n.children()[1:]:
                r = r * x
            return simp(r)
        return n / sz

    def memcpy(self, st, dst, src, nbytes, fr, ety=None):
        if isinstance(dst, Alt) or isinstance(src, Alt) or isinstance(dst, Undef) or isinstance(src, Undef):
            raise Unsupported("memcpy on alternatives")
        m = fr.fn.module

        def typ(p):
            t = p.region.ety
            if t is None and () in p.region.types:
                return p.region.types[()] if p.path == () else None
            if t is None:
                return None
            for s in p.path:
                if s == "a":
                    t = t[2] if t[0] == "arr" else t
                else:
                    fs = m.structs.get(t[1]) if t[0] == "struct" else t[1]
                    t = fs[s[1]]
            return t

        t = ety or typ(src) or typ(dst)
        if t is None:
            raise Unsupported("memcpy of untyped regions")
        for p in (dst, src):
            if p.region.ety is None and p.path == () and t[0] in ("struct", "arr"):
                p.region.ety = t
        if nbytes is None:
            nbytes = iv(m.sizeof(t))
        sz = m.sizeof(t)
        one = z3.is_int_value(nbytes) and nbytes.as_long() == sz
        cnt = self.divexact(nbytes, sz)
        for sub, ty in m.leaves(t, ()):
            kd = (dst.region.name, dst.path + sub, ty)
            ks = (src.region.name, src.path + sub, ty)
            self.check_type(dst.region, dst.path + sub, ty)
            self.check_type(src.region, src.path + sub, ty)
            sm = self.getmem(st, ks)
            if src.region.scalar:
                v = sm
                if not one:
                    raise Unsupported("memcpy scalar range")
                rd = lambda *rest, v=v: v
            if dst.region.scalar:
                if not one:
                    raise Unsupported("memcpy scalar range")
                self.setmem(st, kd, sm if src.region.scalar else sm.read(src.idx))
                continue
            dm = self.getmem(st, kd)
            nd, ns = len(dst.idx), len(src.idx)
            didx, sidx = dst.idx, src.idx
            if self.bounds and not one:
                for p, w in ((dst, "write"), (src, "read")):
                    if p.path == ():
                        lo = Ptr(p.region, p.path, p.idx)
                        hi = Ptr(p.region, p.path, p.idx[:-1] + (p.idx[-1] + cnt - 1,))
                        s2 = State(st.pc + (cnt > 0,), st.mem)
                        self.check_bounds(s2, lo, ty, 0, w)
                        self.check_bounds(s2, hi, ty, 0, w)

            def pred(*ix, didx=didx, nd=nd, cnt=cnt):
                cs = [ix[k] == didx[k] for k in range(nd - 1)]
                cs += [ix[nd - 1] >= didx[nd - 1], ix[nd - 1] < didx[nd - 1] + cnt]
                if z3.is_int_value(cnt) and cnt.as_long() == 1:
                    cs[-2:] = [ix[nd - 1] == didx[nd - 1]]
                return And(*cs)

            def valfn(*ix, didx=didx, sidx=sidx, nd=nd, ns=ns, sm=sm, sc=src.region.scalar):
                if sc:
                    return sm
                r = list(sidx[: ns - 1]) + [simp(sidx[ns - 1] + (ix[nd - 1] - didx[nd - 1]))] + list(ix[nd:])
                return sm.read(tuple(r))

            self.setmem(st, kd, Bulk(dm, pred, valfn))

    def b_fabs(self, fr, I, st, a):
        return z3.If(a[0] >= 0, a[0], -a[0])

    def b_abs(self, fr, I, st, a):
        return z3.If(a[0] >= 0, a[0], -a[0])

    def b_ceil(self, fr, I, st, a):
        return self.ceil_real(a[0], st)

    def b_floor(self, fr, I, st, a):
        return self.floor_real(a[0], st)

    def b_sqrt(self, fr, I, st, a):
        f = z3.Function("m_sqrt", RealS, RealS)
        r = f(a[0])
        self.fact(z3.Implies(a[0] >= 0, z3.And(r >= 0, r * r == a[0])))
        return r

    def cstr(self, p):
        """python string of a constant string pointer or None"""
        if isinstance(p, Ptr) and p.region.content is not None:
            k = simp(p.idx[-1])
            if z3.is_int_value(k):
                s = p.region.content
                e = s.index(0) if 0 in s else len(s)
                return bytes(x % 256 for x in s[k.as_long():e]).decode("latin1")
        return None

    def strkey(self, p):
        return (p.region.name, p.path, tuple(i.sexpr() for i in p.idx))

    def streq(self, p, lit):
        """Boolean: the string at p equals the literal; exclusive between literals.
        (strings are immutable unless a contract/havoc bumps the region's version)"""
        r = p.region
        ver = getattr(r, "strver", 0)
        n = len(p.idx)
        f = z3.Function("strid_%s_%s_%d" % (r.name, "".join(map(str, p.path)), ver), *([IntS] * n + [IntS]))
        if not hasattr(self, "litids"):
            self.litids = {}
        k = self.litids.setdefault(lit, len(self.litids))
        return f(*p.idx) == k

    def b_strcmp(self, fr, I, st, a):
        ls, rs = self.cstr(a[0]), self.cstr(a[1])
        if ls is not None and rs is not None:
            return iv(0 if ls == rs else 1)
        p, l = (a[0], rs) if rs is not None else (a[1], ls)
        if l is None or not isinstance(p, Ptr):
            return fresh("strcmp", IntS)
        return z3.If(self.streq(p, l), iv(0), iv(1))

    b_strcasecmp = b_strcmp

    # ------------------------------------------------------------ loops
    def loop_id(self, fr, h):
        key = (fr.callpath, h)
        if key not in self.loopnum:
            self.loopnum[key] = len(self.loopnum)
            self.loopnames[self.loopnum[key]] = (fr.fn.name, h)
        return self.loopnum[key]

    def run_loop(self, fr, h, incoming, rets):
        succ, rpo, num, pred, loops = cfg_info(fr.fn)
        body = loops[h]
        lid = self.loop_id(fr, h)
        spec = self.loopspecs.get(lid, self.loopdefault)
        if callable(spec) and not isinstance(spec, LoopSpec):
            spec = LoopSpec(spec)
        entry = self.merge([s for _, s in incoming])
        if fr.fn.blocks[h][0].op == "phi":
            raise Unsupported("phi in loop header")
        if spec is not None and spec.unroll:
            return self.unroll_loop(fr, h, body, entry, rets, spec.unroll)
        mods = self.modset(fr, h, body, entry, lid)
        H, hv = self.havoc_state(fr, entry, mods, lid)
        # syntactic counter facts (from a dry run of the havocked state)
        for f in self.counter_facts(fr, h, body, entry, H, mods):
            self.fact(f, H)
        L0 = LoopCtx(self, fr, entry, entry, lid)
        L = LoopCtx(self, fr, H, entry, lid)
        if spec is not None and spec.inv is not None and not self.dry:
            for nm, f in named(spec.inv(L0)):
                self.oblige("loop %d init: %s" % (lid, nm), entry, f, self.line_of(fr, h), "inv-init")
            for nm, f in named(spec.inv(L)):
                self.fact(f, H)
        exits = self.run_region(fr, body, h, [(None, H)], rets, h)
        back = exits.pop(h, [])
        if back and spec is not None and spec.inv is not None and not self.dry:
            B = self.merge([s for _, s in back])
            LB = LoopCtx(self, fr, B, entry, lid, prev=H)
            acc = ()
            for nm, f in named(spec.inv(LB)):
                # each invariant may use the ones listed before it (proved on their own)
                self.oblige("loop %d preserve: %s" % (lid, nm), State(B.pc + acc, B.mem), f, self.line_of(fr, h), "inv-preserve")
                acc = acc + (f,)
            if spec.dec is not None:
                d0, d1 = spec.dec(L), spec.dec(LB)
                self.oblige("loop %d decreases" % lid, B, z3.And(d0 >= 0, d1 < d0), self.line_of(fr, h), "decreases")
        return exits

    def unroll_loop(self, fr, h, body, entry, rets, n):
        allex = {}
        cur = [(None, entry)]
        for k in range(n + 1):
            exits = self.run_region(fr, body, h, cur, rets, h)
            back = exits.pop(h, [])
            for d, l in exits.items():
                allex.setdefault(d, []).extend(l)
            if not back:
                break
            if k == n:
                if not self.dry:
                    B = self.merge([s for _, s in back])
                    self.oblige("unwinding assertion", B, z3.BoolVal(False), self.line_of(fr, h), "unwind")
                break
            cur = back
            if self.dry and k >= 2:
                break
        return allex

    def line_of(self, fr, b):
        for I in fr.fn.blocks[b]:
            if I.line:
                return I.line
        return 0

    def modset(self, fr, h, body, entry, lid):
        ck = (fr.callpath, h)
        mods = set(self.modcache.get(ck, ()))
        saved = self.writes
        nregs = set(self.regions)
        for it in range(6):
            self.writes = set()
            self.dry += 1
            try:
                st, _ = self.havoc_state(fr, entry, mods, lid) if mods else (entry.copy(), None)
                rr = []
                ex = self.run_region(fr, body, h, [(None, st)], rr, h)
                grew = False
                for _, bs in ex.get(h, []):
                    for key in self.writes | mods:
                        rg = self.regions.get(key[0])
                        if key[2] == PTR and rg is not None and rg.scalar and (lid, key) not in self.unstable:
                            o, v = self.getmem(entry, key), bs.mem.get(key)
                            if v is None:
                                continue
                            if not (isinstance(o, Ptr) and isinstance(v, Ptr) and v.region is o.region
                                    and v.path == o.path and o.region.kind != "null"
                                    and all(x.eq(y) for x, y in zip(v.idx[:-1], o.idx[:-1]))):
                                self.unstable.add((lid, key))
                                grew = True
            finally:
                self.dry -= 1
                w = self.writes
                self.writes = saved
            # regions created inside the loop body do not exist at the header
            w = {k for k in w if k[0] in nregs or k[0].startswith("ghost")}
            if w <= mods and not grew:
                break
            mods |= w
        else:
            raise Unsupported("modset does not converge")
        self.modcache[ck] = mods
        if self.writes is not None:
            self.writes |= mods
        return mods

    def havoc_state(self, fr, entry, mods, lid):
        H = entry.copy()
        hv = {}
        for key in sorted(mods, key=str):
            rname, path, ty = key
            r = self.regions.get(rname)
            if rname.startswith("ghost"):
                v = entry.mem.get(key)
                H.mem[key] = fresh(rname, v.sort())
                continue
            if r.kind == "alloca" and key not in entry.mem and key not in self.initial and r.scalar:
                # not yet alive at the header
                pass
            nm = freshname(self.keyname(key) + "@L%d" % lid)
            if r.scalar and path == ():
                if ty == PTR:
                    old = self.getmem(entry, key)
                    if isinstance(old, Ptr) and old.region.kind != "null":
                        # same region assumed only if the loop moves it inside the region (checked by ptr_stable)
                        H.mem[key] = Ptr(old.region, old.path, old.idx[:-1] + (fresh(nm, IntS),)) if (
                            lid, key) not in self.unstable else Ptr(self.region(nm + "*", kind="derived"))
                    else:
                        H.mem[key] = Ptr(self.region(nm + "*", kind="derived"))
                    sp = self.loopspecs.get(lid, self.loopdefault)
                    if isinstance(sp, LoopSpec) and sp.buffers and H.mem[key].region.kind == "derived" and H.mem[key].region.bytes is None:
                        if any(n in f.allocas and f.allocas[n] is r for f in self.frames for n in sp.buffers):
                            H.mem[key].region.bytes = fresh(nm + ".bytes", IntS)
                else:
                    H.mem[key] = z3.Const(nm, sort_of(ty))
            else:
                arity = r.nprefix + 1 + sum(1 for p in path if p == "a")
                H.mem[key] = self.mkbase(nm, arity, ty)
        return H, hv

    def counter_facts(self, fr, h, body, entry, H, mods):
        if self.dry:
            return []
        saved = self.writes
        self.writes = set()
        self.dry += 1
        try:
            rr = []
            exits = self.run_region(fr, body, h, [(None, H.copy())], rr, h)
        finally:
            self.dry -= 1
            self.writes = saved
        back = exits.get(h, [])
        if not back:
            return []
        facts = []
        hsyms = set()
        for k in mods:
            v = H.mem.get(k)
            if z3.is_expr(v):
                hsyms.add(v.get_id())
        for key in mods:
            rname, path, ty = key
            r = self.regions[rname] if rname in self.regions else None
            if r is None or not r.scalar or ty[0] != "i" or ty == I1 or path != ():
                continue
            v = H.mem.get(key)
            if not z3.is_expr(v) or not z3.is_int(v):
                continue
            e = self.getmem(entry, key)
            if not z3.is_expr(e) or not z3.is_int(e):
                continue
            lo, hi = True, True
            ups = []
            for _, s in back:
                for g, d in ite_leaves(s.mem.get(key), v):
                    if d is None:
                        lo = hi = False
                    else:
                        if d < 0:
                            lo = False
                        if d > 0:
                            hi = False
                        ups.append((g, d, s))
            if lo:
                facts.append(v >= e)
            if hi:
                facts.append(v <= e)
            if lo and not hi and all(d <= 1 for _, d, _ in ups):
                # bound: a conjunct  v < b / v <= b / v != b  in every back-edge pc, b loop-invariant
                bnds = None
                for _, s in back:
                    cand = {}
                    for c in s.pc:
                        b = upper_bound_lit(c, v)
                        if b is not None and not mentions(b, hsyms) and not mentions_new(b, self, mods, H):
                            cand[b.get_id()] = b
                    bnds = cand if bnds is None else {k: x for k, x in bnds.items() if k in cand}
                for b in (bnds or {}).values():
                    facts.append(z3.Or(v <= b, v <= e))
            if hi and not lo and all(d >= -1 for _, d, _ in ups):
                bnds = None
                for _, s in back:
                    cand = {}
                    for c in s.pc:
                        b = lower_bound_lit(c, v)
                        if b is not None and not mentions(b, hsyms) and not mentions_new(b, self, mods, H):
                            cand[b.get_id()] = b
                    bnds = cand if bnds is None else {k: x for k, x in bnds.items() if k in cand}
                for b in (bnds or {}).values():
                    facts.append(z3.Or(v >= b, v >= e))
        return facts


def ite_leaves(t, v):
    """yields (None, t-v as int or None) for each ite leaf"""
    if t is None:
        yield (None, 0)
        return
    if not z3.is_expr(t):
        yield (None, None)
        return
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
        yield from ite_leaves(t.arg(1), v)
        yield from ite_leaves(t.arg(2), v)
        return
    d = simp(t - v)
    if z3.is_int_value(d):
        yield (None, d.as_long())
    else:
        yield (None, None)


def upper_bound_lit(c, v):
    """c implies v <= result - 1 (i.e. v < result) for a term result; returns result or None"""
    neg = False
    if z3.is_not(c):
        neg = True
        c = c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    k = c.decl().kind()
    a, b = c.arg(0), c.arg(1)
    if not z3.is_int(a):
        return None
    d = simp(a - b)
    # normal form: want v < R
    if k == z3.Z3_OP_LE:  # a<=b ; neg a>b
        if not neg:
            lo, hi, strict = a, b, False
        else:
            lo, hi, strict = b, a, True
    elif k == z3.Z3_OP_GE:
        if not neg:
            lo, hi, strict = b, a, False
        else:
            lo, hi, strict = a, b, True
    elif k == z3.Z3_OP_LT:
        if not neg:
            lo, hi, strict = a, b, True
        else:
            lo, hi, strict = b, a, False
    elif k == z3.Z3_OP_GT:
        if not neg:
            lo, hi, strict = b, a, True
        else:
            lo, hi, strict = a, b, False
    else:
        return None
    # lo <(=) hi ;  R = hi - lo + v  (+1 if not strict) must not mention v
    R = simp(hi - lo + v + (0 if strict else 1))
    if mentions(R, {v.get_id()}):
        return None
    return R


def lower_bound_lit(c, v):
    """c implies v > result"""
    neg = False
    if z3.is_not(c):
        neg = True
        c = c.arg(0)
    if not z3.is_app(c) or c.num_args() != 2:
        return None
    k = c.decl().kind()
    a, b = c.arg(0), c.arg(1)
    if not z3.is_int(a):
        return None
    tab = {(z3.Z3_OP_LE, False): (a, b, False), (z3.Z3_OP_LE, True): (b, a, True),
           (z3.Z3_OP_GE, False): (b, a, False), (z3.Z3_OP_GE, True): (a, b, True),
           (z3.Z3_OP_LT, False): (a, b, True), (z3.Z3_OP_LT, True): (b, a, False),
           (z3.Z3_OP_GT, False): (b, a, True), (z3.Z3_OP_GT, True): (a, b, False)}
    if (k, neg) not in tab:
        return None
    lo, hi, strict = tab[(k, neg)]
    R = simp(lo - hi + v - (0 if strict else 1))
    if mentions(R, {v.get_id()}):
        return None
    return R


def mentions(t, ids):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        i = x.get_id()
        if i in ids:
            return True
        if i in seen:
            continue
        seen.add(i)
        st.extend(x.children())
    return False


def mentions_new(t, eng, mods, H):
    """does t read a memory function havocked at this loop"""
    names = set()
    for k in mods:
        v = H.mem.get(k)
        if isinstance(v, Base):
            names.add(k)
    # any symbol with '@L' created for this H: compare by decl names of havocked bases
    hv = getattr(H, "_x", None)
    seen = set()
    st = [t]
    decls = set()
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_app(x):
            decls.add(x.decl().name())
        st.extend(x.children())
    for k in names:
        r = eng.regions[k[0]]
        n = r.nprefix + 1 + sum(1 for p in k[1] if p == "a")
        try:
            s = H.mem[k].read(tuple(iv(0) for _ in range(n)))
        except Exception:
            return True
        if z3.is_expr(s) and s.decl().name() in decls:
            return True
    return False


def named(l):
    if l is None:
        return []
    out = []
    if not isinstance(l, (list, tuple)):
        l = [l]
    for n, x in enumerate(l):
        if isinstance(x, tuple):
            out.append(x)
        else:
            out.append(("#%d" % n, x))
    return out


class LoopSpec:
    def __init__(self, inv=None, unroll=0, dec=None, buffers=()):
        self.inv, self.unroll, self.dec = inv, unroll, dec
        self.buffers = tuple(buffers)  # pointer variables whose block size the invariant speaks about


class View:
    """read access to a state for contracts"""

    def __init__(self, eng, st, fr=None):
        self.eng, self.st, self.fr = eng, st, fr

    def field(self, p, name, mod=None):
        """pointer to a named field of the struct at p"""
        ety = p.region.ety
        mod = mod or self.eng.topmod()
        fl = mod.fields.get(ety[1])
        if fl is None or name not in fl:
            raise AttachError("field %s" % name)
        return Ptr(p.region, p.path + (("f", fl.index(name)),), p.idx)

    def at(self, p, i=None, ty=None):
        if isinstance(p, Alt):
            cs = [(g, q) for g, q in self.eng.alt_cases(p) if isinstance(q, Ptr) and q.region.kind != "null"]
            v = self.at(cs[-1][1], i, ty)
            for g, q in reversed(cs[:-1]):
                v = ite(g, self.at(q, i, ty), v)
            return v
        if isinstance(p, Ptr) and p.region.ety is not None and p.region.ety[0] == "arr" and p.path == ():
            p = self.eng.decay_arr(p, self.fr)
        if i is not None:
            if not z3.is_expr(i):
                i = iv(i)
            p = Ptr(p.region, p.path, p.idx[:-1] + (simp(p.idx[-1] + i),))
        if ty is None:
            ty = p.region.types.get(p.path)
            if ty is None:
                raise AttachError("type of %s" % p)
        return self.eng.load(self.st, p, ty, chk=False)


class AttachError(Unsupported):
    pass


class LoopCtx(View):
    def __init__(self, eng, fr, st, entry, lid, prev=None):
        super().__init__(eng, st, fr)
        self.entry_st = entry
        self.lid = lid
        self.prev_st = prev

    def var(self, name):
        if "@" in name:
            # name@k: the k-th local variable of that name (clang numbers the later ones)
            base, k = name.split("@")
            for fr in reversed(self.eng.frames):
                c = [r for n, r in fr.allocas.items() if re.fullmatch(re.escape(base) + r"\d*", n)]
                if len(c) >= int(k):
                    return c[int(k) - 1]
            raise AttachError("variable %s not found" % name)
        for fr in reversed(self.eng.frames):
            for n in (name, name + ".addr"):
                if n in fr.allocas:
                    return fr.allocas[n]
        raise AttachError("variable %s not found" % name)

    def __getitem__(self, name):
        r = self.var(name)
        if not r.scalar:
            return Ptr(r)
        ty = r.ety
        return self.eng.load(self.st, Ptr(r), ty, chk=False)

    def bytes(self, name):
        """size of the block a pointer variable points to the start of (0 for null)"""
        def go(p):
            if isinstance(p, Alt):
                cs = self.eng.alt_cases(p)
                v = go(cs[-1][1])
                for g, q in reversed(cs[:-1]):
                    v = If(g, go(q), v)
                return v
            if not isinstance(p, Ptr):
                raise AttachError("bytes of %s" % name)
            if p.region.kind == "null":
                return iv(0)
            b = p.region.bytes
            if b is None:
                raise AttachError("bytes of %s unknown" % name)
            return b(*p.idx[: p.region.nprefix]) if callable(b) else b
        from z3 import If
        return go(self[name])

    def entry(self, name):
        r = self.var(name)
        return self.eng.load(self.entry_st, Ptr(r), r.ety, chk=False)

    @property
    def e(self):
        return LoopCtx(self.eng, self.fr, self.entry_st, self.entry_st, self.lid)


class CallCtx(View):
    def __init__(self, eng, fr, I, st, name, args):
        super().__init__(eng, st, fr)
        self.I, self.name, self.args = I, name, args
        self.noreturn = False

    def require(self, nm, f):
        self.eng.oblige("call %s requires: %s" % (self.name, nm), self.st, f, self.I.line, "requires")

    def assume(self, f):
        self.eng.fact(f, self.st)

    def assume_all(self, f):
        self.eng.fact(f)

    def havoc(self, p, ty):
        key = (p.region.name, p.path, ty)
        r = p.region
        self.eng.check_type(r, p.path, ty)
        nm = freshname(self.eng.keyname(key) + "@" + self.name)
        if r.scalar and p.path == ():
            v = z3.Const(nm, sort_of(ty))
            self.eng.setmem(self.st, key, v)
        else:
            ar = r.nprefix + 1 + sum(1 for q in p.path if q == "a")
            self.eng.setmem(self.st, key, self.eng.mkbase(nm, ar, ty))

    def set(self, p, ty, v):
        self.eng.store(self.st, p, ty, v, self.I.line)

    def bulk(self, p, ty, pred, valfn):
        """memory[p.region] := lambda idx. pred(idx)? valfn(idx) : old"""
        key = (p.region.name, p.path, ty)
        self.eng.check_type(p.region, p.path, ty)
        self.eng.setmem(self.st, key, Bulk(self.eng.getmem(self.st, key), pred, valfn))

    def ghost(self, name, sort=None):
        key = ("ghost_" + name, (), I64)
        v = self.st.mem.get(key)
        return v

    def set_ghost(self, name, v):
        self.eng.setmem(self.st, ("ghost_" + name, (), I64), v)


def decode_cstr(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == "\\":
            if s[i + 1] == "\\":
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1 : i + 3], 16))
                i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return [x - 256 if x > 127 else x for x in out]
