"""Parser for the textual LLVM IR that clang-18 -O0 produces from /repo's C files.

Only what -O0 C code needs is parsed; anything else raises Unsupported, which a
check reports as "undecided" (never as proved).
"""
import re
import struct
import subprocess
import os
import hashlib

CLANG = "/usr/lib/llvm-18/bin/clang"
REPO = os.environ.get("VERIF_REPO", "/repo")


class Unsupported(Exception):
    pass


# ---------------------------------------------------------------- types
# types are represented as tuples:
#  ('i',n) ('f',) double ('f32',) ('ptr',) ('void',) ('arr',n,T) ('struct',name) ('lit',(T,...))
I1, I8, I16, I32, I64 = (("i", n) for n in (1, 8, 16, 32, 64))
F64, F32, PTR, VOID = ("f",), ("f32",), ("ptr",), ("void",)

TOK = re.compile(
    r'\s*(%"[^"]*"|@"[^"]*"|[%@][\w.$\-]+|c"(?:[^"\\]|\\.)*"|"[^"]*"|![\w.]+|!\d*|#\d+|\.\.\.|'
    r"0xK?[0-9A-Fa-f]+|-?\d+\.\d+(?:[eE][+\-]?\d+)?|-?\d+|[\w.$]+|[()\[\]{}<>,=*:])"
)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == "":
                break
            raise Unsupported("token: %r" % s[pos : pos + 40])
        out.append(m.group(1))
        pos = m.end()
    return out


class TS:
    """token stream"""

    def __init__(self, toks):
        self.t = toks
        self.p = 0

    def peek(self, k=0):
        return self.t[self.p + k] if self.p + k < len(self.t) else None

    def next(self):
        v = self.t[self.p]
        self.p += 1
        return v

    def accept(self, x):
        if self.peek() == x:
            self.p += 1
            return True
        return False

    def expect(self, x):
        if self.peek() != x:
            raise Unsupported("expected %s got %s in %s" % (x, self.peek(), " ".join(self.t)))
        self.p += 1


def parse_type(ts):
    t = ts.next()
    if t == "ptr":
        ty = PTR
    elif t == "void":
        ty = VOID
    elif t == "double":
        ty = F64
    elif t == "float":
        ty = F32
    elif t == "metadata":
        ty = ("metadata",)
    elif t == "label":
        ty = ("label",)
    elif t == "x86_fp80":
        ty = ("f80",)
    elif re.match(r"i\d+$", t):
        ty = ("i", int(t[1:]))
    elif t == "[":
        n = int(ts.next())
        ts.expect("x")
        e = parse_type(ts)
        ts.expect("]")
        ty = ("arr", n, e)
    elif t == "{":
        fs = []
        while not ts.accept("}"):
            fs.append(parse_type(ts))
            ts.accept(",")
        ty = ("lit", tuple(fs))
    elif t == "<":
        n = int(ts.next())
        ts.expect("x")
        e = parse_type(ts)
        ts.expect(">")
        ty = ("vec", n, e)
    elif t[0] == "%":
        ty = ("struct", t[1:].strip('"'))
    else:
        raise Unsupported("type " + t)
    # function type  T (args)   -- only in call of varargs
    if ts.peek() == "(" and t != "ptr":
        pass
    return ty


PATTRS = {
    "noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly", "immarg",
    "returned", "writeonly", "readnone", "noreturn", "nest", "allocptr", "nofree", "dso_local", "local_unnamed_addr",
}


def skip_attrs(ts):
    """returns dict of interesting attrs"""
    d = {}
    while True:
        p = ts.peek()
        if p in PATTRS:
            ts.next()
        elif p in ("byval", "sret", "elementtype"):
            ts.next()
            ts.expect("(")
            d[p] = parse_type(ts)
            ts.expect(")")
        elif p in ("align", "dereferenceable", "dereferenceable_or_null"):
            ts.next()
            if ts.accept("("):
                ts.next()
                ts.expect(")")
            else:
                ts.next()
        else:
            return d


class Const:
    __slots__ = ("k", "v", "ty")

    def __init__(self, k, v=None, ty=None):
        self.k, self.v, self.ty = k, v, ty

    def __repr__(self):
        return "Const(%s,%s)" % (self.k, self.v)


def fp_const(tok):
    from fractions import Fraction

    if tok.startswith("0x"):
        d = struct.unpack(">d", bytes.fromhex(tok[2:].rjust(16, "0")))[0]
    else:
        d = float(tok)
    if d != d or d in (float("inf"), float("-inf")):
        return Const("fpspecial", d)
    return Const("fp", Fraction(d))


def parse_value(ts, ty):
    """value operand: '%x' -> ('r',name); '@x' -> Const global; literals."""
    t = ts.peek()
    if t[0] == "%":
        ts.next()
        return ("r", t[1:].strip('"'))
    if t[0] == "@":
        ts.next()
        return Const("global", t[1:].strip('"'))
    if t in ("null", "zeroinitializer", "undef", "poison", "true", "false", "none"):
        ts.next()
        return Const(t, None, ty)
    if t == "getelementptr":
        ts.next()
        ts.accept("inbounds")
        ts.expect("(")
        ety = parse_type(ts)
        ts.expect(",")
        parse_type(ts)
        base = parse_value(ts, PTR)
        idx = []
        while ts.accept(","):
            ts.accept("inrange")
            ity = parse_type(ts)
            idx.append((ity, parse_value(ts, ity)))
        ts.expect(")")
        return Const("gep", (ety, base, idx))
    if t in ("ptrtoint", "inttoptr", "bitcast"):
        ts.next()
        ts.expect("(")
        t1 = parse_type(ts)
        v = parse_value(ts, t1)
        ts.expect("to")
        parse_type(ts)
        ts.expect(")")
        return Const("cast", (t, t1, v))
    if t[0] == "c" and t[1:2] == '"':
        ts.next()
        return Const("str", t[2:-1])
    if t == "[":
        ts.next()
        vs = []
        while not ts.accept("]"):
            et = parse_type(ts)
            vs.append(parse_value(ts, et))
            ts.accept(",")
        return Const("agg", vs)
    if t == "{":
        ts.next()
        vs = []
        while not ts.accept("}"):
            et = parse_type(ts)
            vs.append(parse_value(ts, et))
            ts.accept(",")
        return Const("agg", vs)
    if ty[0] in ("f", "f32"):
        ts.next()
        return fp_const(t)
    if re.match(r"-?\d+$", t):
        ts.next()
        return Const("int", int(t))
    raise Unsupported("value %s" % " ".join(ts.t[ts.p : ts.p + 8]))


class Ins:
    __slots__ = ("op", "res", "ty", "a", "line", "txt")

    def __init__(self, op, res=None, ty=None, a=None, line=0, txt=""):
        self.op, self.res, self.ty, self.a, self.line, self.txt = op, res, ty, a, line, txt


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []  # (type, name, attrs)
        self.ret = VOID
        self.blocks = {}  # name -> [Ins]
        self.order = []
        self.module = None
        self.vararg = False


def parse_call(ts):
    # after 'call'
    while ts.peek() in ("fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc"):
        ts.next()
    skip_attrs(ts)
    rty = parse_type(ts)
    if ts.peek() == "(":  # function type
        depth = 0
        while True:
            t = ts.next()
            if t == "(":
                depth += 1
            elif t == ")":
                depth -= 1
                if depth == 0:
                    break
    callee = ts.next()
    ts.expect("(")
    args = []
    while not ts.accept(")"):
        aty = parse_type(ts)
        if aty == ("metadata",):
            # skip metadata args
            depth = 0
            while True:
                p = ts.peek()
                if p == "(":
                    depth += 1
                elif p == ")":
                    if depth == 0:
                        break
                    depth -= 1
                elif p == "," and depth == 0:
                    break
                ts.next()
            args.append((aty, None, {}))
        else:
            at = skip_attrs(ts)
            args.append((aty, parse_value(ts, aty), at))
        ts.accept(",")
    return rty, callee, args


BIN = {"add", "sub", "mul", "sdiv", "srem", "udiv", "urem", "shl", "ashr", "lshr", "and", "or", "xor",
       "fadd", "fsub", "fmul", "fdiv", "frem"}
CASTS = {"sext", "zext", "trunc", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "ptrtoint", "inttoptr",
         "bitcast"}


def parse_ins(line, dbgline):
    txt = line
    m = re.search(r"!dbg !(\d+)", line)
    ln = dbgline.get(int(m.group(1)), 0) if m else 0
    line = re.sub(r", !\w+(\.\w+)* !\d+", "", line)
    line = re.sub(r"#\d+", "", line)
    ts = TS(tokenize(line))
    res = None
    if ts.peek(1) == "=" and ts.peek()[0] == "%":
        res = ts.next()[1:].strip('"')
        ts.next()
    op = ts.next()
    I = Ins(op, res, None, None, ln, txt)
    if op in ("tail", "musttail", "notail"):
        op = I.op = ts.next()
    if op == "alloca":
        I.ty = parse_type(ts)
        if ts.accept(",") and ts.peek() not in ("align",):
            t = parse_type(ts)
            I.a = (t, parse_value(ts, t))
    elif op == "load":
        ts.accept("volatile")
        I.ty = parse_type(ts)
        ts.expect(",")
        parse_type(ts)
        I.a = parse_value(ts, PTR)
    elif op == "store":
        ts.accept("volatile")
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect(",")
        parse_type(ts)
        I.ty = t
        I.a = (v, parse_value(ts, PTR))
    elif op == "getelementptr":
        ts.accept("inbounds")
        I.ty = parse_type(ts)
        ts.expect(",")
        parse_type(ts)
        base = parse_value(ts, PTR)
        idx = []
        while ts.accept(","):
            t = parse_type(ts)
            idx.append((t, parse_value(ts, t)))
        I.a = (base, idx)
    elif op in BIN:
        while ts.peek() in ("nsw", "nuw", "exact", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn",
                            "reassoc", "disjoint"):
            ts.next()
        I.ty = parse_type(ts)
        a = parse_value(ts, I.ty)
        ts.expect(",")
        I.a = (a, parse_value(ts, I.ty))
    elif op == "fneg":
        I.ty = parse_type(ts)
        I.a = parse_value(ts, I.ty)
    elif op in ("icmp", "fcmp"):
        pred = ts.next()
        I.ty = parse_type(ts)
        a = parse_value(ts, I.ty)
        ts.expect(",")
        I.a = (pred, a, parse_value(ts, I.ty))
    elif op in CASTS:
        ts.accept("nneg")
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect("to")
        I.ty = parse_type(ts)
        I.a = (t, v)
    elif op == "br":
        if ts.accept("label"):
            I.a = (None, ts.next()[1:].strip('"'))
        else:
            parse_type(ts)
            c = parse_value(ts, I1)
            ts.expect(",")
            ts.expect("label")
            t1 = ts.next()[1:].strip('"')
            ts.expect(",")
            ts.expect("label")
            t2 = ts.next()[1:].strip('"')
            I.a = (c, t1, t2)
    elif op == "switch":
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect(",")
        ts.expect("label")
        dflt = ts.next()[1:].strip('"')
        ts.expect("[")
        cases = []
        while not ts.accept("]"):
            ct = parse_type(ts)
            cv = parse_value(ts, ct)
            ts.expect(",")
            ts.expect("label")
            cases.append((cv, ts.next()[1:].strip('"')))
        I.ty = t
        I.a = (v, dflt, cases)
    elif op == "ret":
        I.ty = parse_type(ts)
        I.a = None if I.ty == VOID else parse_value(ts, I.ty)
    elif op == "unreachable":
        pass
    elif op == "phi":
        I.ty = parse_type(ts)
        inc = []
        while True:
            ts.expect("[")
            v = parse_value(ts, I.ty)
            ts.expect(",")
            b = ts.next()[1:].strip('"')
            ts.expect("]")
            inc.append((v, b))
            if not ts.accept(","):
                break
        I.a = inc
    elif op == "select":
        t = parse_type(ts)
        c = parse_value(ts, t)
        ts.expect(",")
        I.ty = parse_type(ts)
        a = parse_value(ts, I.ty)
        ts.expect(",")
        parse_type(ts)
        I.a = (c, a, parse_value(ts, I.ty))
    elif op == "call":
        I.ty, callee, args = parse_call(ts)
        I.a = (callee, args)
    elif op in ("extractvalue", "insertvalue"):
        raise Unsupported(op)
    elif op == "freeze":
        I.ty = parse_type(ts)
        I.a = parse_value(ts, I.ty)
    else:
        raise Unsupported("instruction " + op)
    return I


class Module:
    def __init__(self, path):
        self.path = path
        self.structs = {}  # name -> [types] or None
        self.fields = {}  # struct name -> [names]
        self.funcs = {}
        self.raw = {}  # func name -> (header, lines)
        self.globals = {}  # name -> (type, init Const or None, is_const)
        self.decls = set()
        self._parse(open(path).read().split("\n"))

    def _parse(self, lines):
        self.dbgline = {}
        md = {}
        for l in lines:
            m = re.match(r"!(\d+) = (.*)$", l)
            if m:
                md[int(m.group(1))] = m.group(2)
                m2 = re.search(r"DILocation\(line: (\d+)", l)
                if m2:
                    self.dbgline[int(m.group(1))] = int(m2.group(1))
        # struct field names via DI
        def refs(s):
            return [int(x) for x in re.findall(r"!(\d+)", s)]
        def members(cid):
            s = md.get(cid, "")
            m = re.search(r"elements: !(\d+)", s)
            if not m:
                return None
            out = []
            for r in refs(md.get(int(m.group(1)), "")):
                n = re.search(r'name: "([^"]*)"', md.get(r, ""))
                out.append(n.group(1) if n else "?")
            return out
        for k, s in md.items():
            m = re.search(r"DIDerivedType\(tag: DW_TAG_typedef, name: \"([^\"]+)\".*baseType: !(\d+)", s)
            if m and "DW_TAG_structure_type" in md.get(int(m.group(2)), ""):
                f = members(int(m.group(2)))
                if f:
                    self.fields["struct." + m.group(1)] = f
            m = re.search(r"DICompositeType\(tag: DW_TAG_structure_type, name: \"([^\"]+)\"", s)
            if m:
                f = members(k)
                if f:
                    self.fields["struct." + m.group(1)] = f
        i = 0
        n = len(lines)
        while i < n:
            l = lines[i]
            if l.startswith("%") and " = type " in l:
                name, rest = l.split(" = type ", 1)
                name = name[1:].strip('"')
                if rest.strip() == "opaque":
                    self.structs[name] = None
                else:
                    try:
                        ty = parse_type(TS(tokenize(rest)))
                        self.structs[name] = list(ty[1])
                    except Unsupported:
                        self.structs[name] = None
            elif l.startswith("@"):
                m = re.match(r'@("[^"]*"|[\w.$\-]+) = (.*)$', l)
                nm, rest = m.group(1).strip('"'), m.group(2)
                self._global(nm, rest)
            elif l.startswith("define"):
                j = i + 1
                body = []
                while lines[j] != "}":
                    body.append(lines[j])
                    j += 1
                m = re.search(r'@("[^"]*"|[\w.$\-]+)\(', l)
                self.raw[m.group(1).strip('"')] = (l, body)
                i = j
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[\w.$\-]+)\(', l)
                self.decls.add(m.group(1))
            i += 1

    def _global(self, nm, rest):
        rest = re.sub(r", !dbg !\d+", "", rest)
        try:
            m = re.match(r"(.*?)\b(global|constant)\b (.*)$", rest)
            if not m:
                return
            ts = TS(tokenize(m.group(3)))
            ty = parse_type(ts)
            init = None
            if ts.peek() is not None and ts.peek() not in (",",) and "external" not in m.group(1).split():
                try:
                    init = parse_value(ts, ty)
                except Unsupported:
                    init = None
            self.globals[nm] = (ty, init, m.group(2) == "constant")
        except Unsupported:
            pass

    def func(self, name):
        if name in self.funcs:
            return self.funcs[name]
        if name not in self.raw:
            return None
        hdr, body = self.raw[name]
        f = Func(name)
        f.module = self
        h = hdr[len("define"):]
        h = re.sub(r"![\w.]+ !\d+", "", h)
        m = re.match(r'(.*?)@("[^"]*"|[\w.$\-]+)\(', h)
        pre = m.group(1)
        ts = TS(tokenize(pre))
        while ts.peek() in ("internal", "dso_local", "private", "linkonce_odr", "weak", "hidden", "available_externally"):
            ts.next()
        skip_attrs(ts)
        f.ret = parse_type(ts)
        rest = h[m.end():]
        ts = TS(tokenize(re.sub(r"#\d+|\{", "", rest)))
        while not ts.accept(")"):
            if ts.accept("..."):
                f.vararg = True
                continue
            t = parse_type(ts)
            at = skip_attrs(ts)
            nm = ts.next()[1:].strip('"')
            f.params.append((t, nm, at))
            ts.accept(",")
        cur = None
        k = 0
        while k < len(body):
            l = body[k]
            k += 1
            s = l.strip()
            if not s or s.startswith(";"):
                continue
            m = re.match(r'^("[^"]*"|[\w.$\-]+):', l)
            if m:
                cur = m.group(1).strip('"')
                f.blocks[cur] = []
                f.order.append(cur)
                continue
            if cur is None:
                cur = "entry"
                f.blocks[cur] = []
                f.order.append(cur)
            if s.startswith("switch"):
                while not s.rstrip().endswith("]") and "]," not in s:
                    s += " " + body[k].strip()
                    k += 1
            if "@llvm.dbg." in s:
                continue
            s = s.split(" ; ")[0] if " ; " in s and '"' not in s else s
            f.blocks[cur].append(parse_ins(s, self.dbgline))
        self.funcs[name] = f
        return f

    # sizes
    def align(self, ty):
        k = ty[0]
        if k == "arr":
            return self.align(ty[2])
        if k == "struct":
            fs = self.structs.get(ty[1])
            return max([self.align(t) for t in fs] or [1])
        if k == "lit":
            return max([self.align(t) for t in ty[1]] or [1])
        return self.sizeof(ty)

    def sizeof(self, ty):
        k = ty[0]
        if k == "i":
            return max(1, ty[1] // 8)
        if k == "f" or k == "ptr":
            return 8
        if k == "f32":
            return 4
        if k == "f80":
            return 16
        if k == "arr":
            return ty[1] * self.sizeof(ty[2])
        if k in ("struct", "lit"):
            fs = self.structs.get(ty[1]) if k == "struct" else ty[1]
            if fs is None:
                raise Unsupported("sizeof opaque")
            off = 0
            al = 1
            for t in fs:
                a = self.align(t)
                al = max(al, a)
                off = (off + a - 1) // a * a + self.sizeof(t)
            return (off + al - 1) // al * al
        raise Unsupported("sizeof %s" % (ty,))

    def leaves(self, ty, path=()):
        """(path, leaf type) of a type; path steps ('f',k) or 'a'"""
        k = ty[0]
        if k == "arr":
            yield from self.leaves(ty[2], path + ("a",))
        elif k in ("struct", "lit"):
            fs = self.structs.get(ty[1]) if k == "struct" else ty[1]
            for i, t in enumerate(fs):
                yield from self.leaves(t, path + (("f", i),))
        else:
            yield path, ty


def incs():
    out = subprocess.run("nc-config --cflags", shell=True, capture_output=True, text=True).stdout.split()
    return out


_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        import tempfile
        import atexit
        import shutil

        _scratch = tempfile.mkdtemp(prefix="verif_")
        pid = os.getpid()

        def clean():
            if os.getpid() == pid:
                shutil.rmtree(_scratch, ignore_errors=True)

        atexit.register(clean)
    return _scratch


def compile_ir(relsrc, extra=()):
    src = os.path.join(REPO, relsrc)
    out = os.path.join(scratch(), hashlib.sha1((relsrc + repr(extra)).encode()).hexdigest()[:12] + ".ll")
    if os.path.exists(out):
        return out
    cmd = [CLANG, "-S", "-emit-llvm", "-O0", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-g", "-w",
           "-I" + os.path.join(REPO, "lib/libfrencutils"), "-I" + os.path.dirname(src), "-I/verif/harness/inc",
           "-DHAVE_CONFIG_H"] + list(extra) + [src, "-o", out]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode != 0:
        raise Unsupported("clang failed on %s: %s" % (relsrc, r.stderr[-800:]))
    return out


_mods = {}


def load_module(relsrc, extra=()):
    key = (relsrc, tuple(extra))
    if key not in _mods:
        _mods[key] = Module(compile_ir(relsrc, extra))
    return _mods[key]
