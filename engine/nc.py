"""NetCDF-3 (classic / 64-bit offset) files read and written from scratch: independent of the code under test"""
import struct
import numpy as np

CODE = {"b": 1, "c": 2, "h": 3, "i": 4, "f": 5, "d": 6}
DT = {1: ">i1", 2: "S1", 3: ">i2", 4: ">i4", 5: ">f4", 6: ">f8"}
SZ = {1: 1, 2: 1, 3: 2, 4: 4, 5: 4, 6: 8}
TC = {v: k for k, v in CODE.items()}


def pad(b, fill=b"\0"):
    return b + fill * (-len(b) % 4)


def _name(s):
    b = s.encode()
    return struct.pack(">i", len(b)) + pad(b)


def _att(v):
    if isinstance(v, (str, bytes)):
        b = v.encode() if isinstance(v, str) else v
        return struct.pack(">ii", 2, len(b)) + pad(b)
    a = np.atleast_1d(np.asarray(v))
    t = 4 if a.dtype.kind in "iu" and a.dtype.itemsize > 2 else {"i1": 1, "i2": 3, "f4": 5, "f8": 6}[a.dtype.str[1:]]
    b = a.astype(DT[t]).tobytes()
    return struct.pack(">ii", t, len(a)) + pad(b)


def _atts(d):
    if not d:
        return struct.pack(">ii", 0, 0)
    return struct.pack(">ii", 12, len(d)) + b"".join(_name(k) + _att(v) for k, v in d.items())


def write(path, dims, variables, gatts=None, version=1):
    """dims: [(name, len|None)], variables: [(name, typecode, dimnames, array, {att: value})]"""
    ids = {n: k for k, (n, l) in enumerate(dims)}
    rec = next((n for n, l in dims if l is None), None)
    nrec = 0
    info = []
    for name, t, dn, a, at in variables:
        t = CODE[t]
        a = np.asarray(a)
        a = a.astype(DT[t]) if t != 2 else a.astype("S1")
        isrec = len(dn) > 0 and dn[0] == rec and rec is not None
        if isrec:
            nrec = max(nrec, a.shape[0])
        info.append((name, t, dn, a, at or {}, isrec))
    nrv = sum(1 for i in info if i[5])

    def vsize(i):
        name, t, dn, a, at, isrec = i
        n = int(np.prod(a.shape[1:] if isrec else a.shape)) if a.ndim else 1
        n *= SZ[t]
        if isrec and nrv == 1:
            return n
        return n + (-n % 4)
    begins = [0] * len(info)
    for it in range(2):
        h = b"CDF" + bytes([version]) + struct.pack(">i", nrec)
        h += struct.pack(">ii", 10, len(dims)) if dims else struct.pack(">ii", 0, 0)
        for n, l in dims:
            h += _name(n) + struct.pack(">i", l or 0)
        h += _atts(gatts)
        h += struct.pack(">ii", 11, len(info)) if info else struct.pack(">ii", 0, 0)
        for k, i in enumerate(info):
            name, t, dn, a, at, isrec = i
            h += _name(name) + struct.pack(">i", len(dn)) + b"".join(struct.pack(">i", ids[d]) for d in dn) + _atts(at)
            vs = vsize(i)
            h += struct.pack(">ii", t, vs + (-vs % 4)) + struct.pack(">i" if version == 1 else ">q", begins[k])
        off = len(h)
        for k, i in enumerate(info):
            if not i[5]:
                begins[k] = off
                off += vsize(i)
        for k, i in enumerate(info):
            if i[5]:
                begins[k] = off
                off += vsize(i)
    out = [h]
    for i in info:
        if not i[5]:
            b = i[3].tobytes()
            out.append(b + b"\0" * (vsize(i) - len(b)))
    for r in range(nrec):
        for i in info:
            if i[5]:
                b = i[3][r:r + 1].tobytes()
                out.append(b + b"\0" * (vsize(i) - len(b)))
    with open(path, "wb") as f:
        f.write(b"".join(out))


class R:
    def __init__(self, b):
        self.b, self.p = b, 0

    def i(self):
        self.p += 4
        return struct.unpack(">i", self.b[self.p - 4:self.p])[0]

    def q(self):
        self.p += 8
        return struct.unpack(">q", self.b[self.p - 8:self.p])[0]

    def raw(self, n):
        s = self.b[self.p:self.p + n]
        self.p += n + (-n % 4)
        return s

    def name(self):
        return self.raw(self.i()).decode()

    def atts(self):
        self.i()
        out = {}
        for _ in range(self.i()):
            k = self.name()
            t = self.i()
            n = self.i()
            s = self.raw(n * SZ[t])
            out[k] = s if t == 2 else np.frombuffer(s, DT[t]).astype(np.dtype(DT[t]).newbyteorder("="))
        return out


def read(path):
    """-> dims {name: len (None for the record dimension)}, vars {name: (typecode, dims, array, atts)}, global atts"""
    b = open(path, "rb").read()
    if b[:3] != b"CDF" or b[3] not in (1, 2):
        raise ValueError("not a classic NetCDF file: " + path)
    r = R(b)
    r.p = 4
    nrec = r.i()
    r.i()
    dims = []
    for _ in range(r.i()):
        n = r.name()
        dims.append((n, r.i()))
    g = r.atts()
    r.i()
    vs = []
    for _ in range(r.i()):
        n = r.name()
        ids = [r.i() for _ in range(r.i())]
        at = r.atts()
        t = r.i()
        r.i()
        begin = r.i() if b[3] == 1 else r.q()
        vs.append((n, ids, at, t, begin))
    recid = next((k for k, d in enumerate(dims) if d[1] == 0), -1)

    def isrec(v):
        return len(v[1]) > 0 and v[1][0] == recid and recid >= 0
    nrv = [v for v in vs if isrec(v)]

    def sz(v):
        n = SZ[v[3]]
        for k in v[1][1 if isrec(v) else 0:]:
            n *= dims[k][1]
        return n
    recsize = sz(nrv[0]) if len(nrv) == 1 else sum(sz(v) + (-sz(v) % 4) for v in nrv)
    out = {}
    for v in vs:
        n, ids, at, t, begin = v
        dn = tuple(dims[k][0] for k in ids)
        if isrec(v):
            shp = (nrec,) + tuple(dims[k][1] for k in ids[1:])
            s = b"".join(b[begin + q * recsize: begin + q * recsize + sz(v)] for q in range(nrec))
        else:
            shp = tuple(dims[k][1] for k in ids)
            s = b[begin:begin + sz(v)]
        a = np.frombuffer(s, DT[t])
        full = int(np.prod(shp)) if shp else 1
        if a.size != full:  # file shorter than its header says
            a = np.concatenate([a, np.zeros(full - a.size, DT[t])])
        a = a.reshape(shp)
        out[n] = (TC[t], dn, a if t == 2 else a.astype(np.dtype(DT[t]).newbyteorder("=")), at)
    return {n: (None if k == recid else l) for k, (n, l) in enumerate(dims)}, out, g
