"""Bit-level abstract interpretation for the ECC code.

Abstract values are machine words whose bits are polynomials over GF(2)
(algebraic normal form, canonical), in the input bits.  Branches do not fork:
values are joined at merge points with the branch condition as selector, so
one pass covers every input.  Loops with a fixed trip count are unfolded in
the abstract; loops whose trip count depends on the input are replaced by
their transfer function on fresh values (see `Summary`).

Nothing of /repo is executed; inputs stay symbolic throughout.
"""
import ir
from ir import AnalysisBroken, cfg

E = frozenset()
P0 = (0, E)
P1 = (1, E)


class Top(Exception):
    """value outside what the domain can express"""


class Runaway(Exception):
    """a loop does not stop where it has to"""


def px(a, b):
    return (a[0] ^ b[0], a[1] ^ b[1] if b[1] else a[1])


def pvars(p):
    """monomials as masks; mask 0 is the constant"""
    out = []
    a = p[0]
    if a & 1:
        out.append(0)
    a >>= 1
    v = 1
    while a:
        z = (a & -a).bit_length() - 1
        v += z
        out.append(1 << v)
        a >>= z + 1
        v += 1
    out.extend(p[1])
    return out


LIMIT = 300000
KILL = {}        # predicate "all of these are zero" -> (pivots, pivot -> rest of its linear form)
KMASK = [0]


def pm(a, b):
    if a == P0 or b == P0:
        return P0
    if a == P1:
        return b
    if b == P1 or a == b:
        return a
    A, B = pvars(a), pvars(b)
    if len(A) * len(B) > LIMIT:
        raise Top("polynomial too large")
    acc = set()
    for x in A:
        for y in B:
            m = x | y
            if m in acc:
                acc.remove(m)
            else:
                acc.add(m)
    km = KMASK[0]
    if km:
        todo = [(m, h) for m, h in ((m, rewrite(m, km)) for m in acc if m & km) if h is not None]
        for m, _ in todo:
            acc.remove(m)
        n = 0
        while todo:
            m, h = todo.pop()
            for x in h:
                h2 = rewrite(x, km)
                if h2 is not None:
                    todo.append((x, h2))
                elif x in acc:
                    acc.remove(x)
                else:
                    acc.add(x)
            n += len(h)
            if n > 20 * LIMIT:
                raise Top("polynomial too large")
    aff = 0
    nl = []
    for m in acc:
        if m & (m - 1) == 0:
            aff ^= m if m else 1
        else:
            nl.append(m)
    return (aff, frozenset(nl))


def rewrite(m, km):
    """a monomial with a zero predicate and a pivot of its linear forms: the other terms of the form instead"""
    h = m & km
    while h:
        e = h & -h
        h ^= e
        piv, rows = KILL[e]
        t = m & piv
        if t:
            v = 1 << (t.bit_length() - 1)
            return [(m ^ v) | y for y in rows[v]]
    return None


def basis(ps):
    """canonical basis of the span of polynomials (over GF(2)); None if it contains 1"""
    rows = []
    for p in ps:
        q = frozenset(pvars(p))
        for r in rows:
            if max(r) in q:
                q = q ^ r
        if q:
            x = max(q)
            if x == 0:
                return None
            rows = [r ^ q if x in r else r for r in rows]
            rows.append(q)
    out = []
    for r in sorted(rows, key=max):
        a, nl = 0, []
        for m in r:
            if m & (m - 1) == 0:
                a ^= m if m else 1
            else:
                nl.append(m)
        out.append((a, frozenset(nl)))
    return tuple(out)


def pnot(a):
    return (a[0] ^ 1, a[1])


def por(a, b):
    return px(px(a, b), pm(a, b))


def mux(c, a, b):
    """c ? a : b"""
    if c == P1 or a == b:
        return a
    if c == P0:
        return b
    return px(b, pm(c, px(a, b)))


class Space:
    """variables of one analysis"""

    def __init__(s):
        KILL.clear()
        KMASK[0] = 0
        s.n = 1
        s.names = {}
        s.memo = {}
        s.preds = {}          # variable -> definition of a symbolic predicate
        s.tops = set()        # variables that stand for lost information

    def var(s, name):
        v = s.n
        s.n += 1
        s.names[v] = name
        return v

    def pred(s, key):
        k = ("pred", key)
        if k not in s.memo:
            v = s.var("%s" % (key[0],))
            s.memo[k] = v
            s.preds[v] = key
            if key[0] == "eq0":
                z, rows = 0, {}
                for a, nl in key[1]:
                    if not nl and a > 1:
                        x = 1 << (a.bit_length() - 1)
                        z |= x
                        rows[x] = pvars((a ^ x, E))
                if z:
                    KILL[1 << v] = (z, rows)
                    KMASK[0] |= 1 << v
        return (1 << s.memo[k], E)

    def sym(s, name, w, key=None):
        if key is not None:
            k = ("sym", key)
            if k not in s.memo:
                s.memo[k] = Sym(s, name, w)
            return s.memo[k]
        return Sym(s, name, w)


class Sym:
    __slots__ = ("sp", "name", "w", "v", "top")

    def __init__(s, sp, name, w):
        s.sp, s.name, s.w, s.v, s.top = sp, name, w, None, False

    def bits(s):
        if s.v is None:
            s.v = [s.sp.var("%s.%d" % (s.name, i)) for i in range(s.w)]
            if s.top:
                s.sp.tops.update(s.v)
        return [(1 << v, E) for v in s.v]

    def __repr__(s):
        return s.name


class V:
    """a word: either linear in symbols (index arithmetic) or bit polynomials"""
    __slots__ = ("w", "_b", "lin")

    def __init__(s, w, bits=None, lin=None):
        s.w, s._b, s.lin = w, bits, lin

    def bit(s, i):
        if s._b is None:
            s._b = tuple(s._mk())
        b = s._b[i]
        if callable(b):
            l = list(s._b)
            b = l[i] = b()
            s._b = tuple(l)
        return b

    def bits(s):
        return tuple(s.bit(i) for i in range(s.w))

    def _mk(s):
        c, d = s.lin
        if not d:
            return [P1 if c >> i & 1 else P0 for i in range(s.w)]
        r = None
        if c:
            r = V(s.w, lin=(c, {}))
        for y, k in d.items():
            k &= (1 << s.w) - 1
            if k & (k - 1):
                neg = (1 << s.w) - k
                if neg & (neg - 1):
                    raise Top("bits of a linear form")
                t = V(s.w, shlb(wide(y.bits(), s.w), neg.bit_length() - 1))
                r = ripple(r if r is not None else K(0, s.w), t, True)
                continue
            t = V(s.w, shlb(wide(y.bits(), s.w), k.bit_length() - 1))
            r = t if r is None else ripple(r, t)
        return list(r.bits())

    def const(s):
        if s.lin is not None:
            return s.lin[0] if not s.lin[1] else None
        n = 0
        for i in range(s.w):
            b = s.bit(i)
            if b == P1:
                n |= 1 << i
            elif b != P0:
                return None
        s.lin = (n, {})
        return n

    def key(s):
        c = s.const()
        if c is not None:
            return ("c", c)
        if s.lin is not None:
            return ("l", s.lin[0], frozenset(s.lin[1].items()))
        return ("b", s.bits())

    def __repr__(s):
        c = s.const()
        if c is not None:
            return hex(c)
        if s.lin is not None:
            return "%s" % (s.lin,)
        return "<%d bits>" % s.w


def K(c, w):
    return V(w, lin=(c & ((1 << w) - 1), {}))


def wide(b, w):
    b = list(b[:w])
    return b + [P0] * (w - len(b))


def shlb(b, k):
    return ([P0] * k + list(b))[:len(b)]


def symv(y, w=None):
    return V(w or y.w, lin=(0, {y: 1}))


def ripple(a, b, sub=False):
    w = a.w
    out = []
    cy = P1 if sub else P0
    for i in range(w):
        x, y = a.bit(i), b.bit(i)
        if sub:
            y = pnot(y)
        xy = px(x, y)
        out.append(px(xy, cy))
        cy = px(pm(x, y), pm(cy, xy))
        if len(cy[1]) > 3000:
            raise Top("carry chain")
    return V(w, tuple(out))


def add(a, b, sub=False):
    w = a.w
    M = (1 << w) - 1
    ca, cb = a.const(), b.const()
    if cb == 0:
        return a
    if ca == 0 and not sub:
        return b
    if a.lin is not None and b.lin is not None:
        c, d = a.lin
        d = dict(d)
        sg = -1 if sub else 1
        for y, k in b.lin[1].items():
            n = (d.get(y, 0) + sg * k) & M
            if n:
                d[y] = n
            else:
                d.pop(y, None)
        return V(w, lin=((c + sg * b.lin[0]) & M, d))
    if not sub:
        try:
            if all(pm(a.bit(i), b.bit(i)) == P0 for i in range(w)):
                return V(w, tuple(px(a.bit(i), b.bit(i)) for i in range(w)))
        except Top:
            pass
    return ripple(a, b, sub)


def mulc(a, k):
    w = a.w
    M = (1 << w) - 1
    k &= M
    if k == 0:
        return K(0, w)
    if k == 1:
        return a
    if a.lin is not None:
        c, d = a.lin
        return V(w, lin=(c * k & M, {y: q * k & M for y, q in d.items() if q * k & M}))
    if k & (k - 1) == 0:
        return V(w, tuple(shlb(a.bits(), k.bit_length() - 1)))
    r = K(0, w)
    for i in range(w):
        if k >> i & 1:
            r = add(r, V(w, tuple(shlb(a.bits(), i))))
    return r


def shift(a, k, op):
    w = a.w
    if op == "shl":
        if a.lin is not None:
            return mulc(a, 1 << k)
        return V(w, tuple(shlb(a.bits(), k)))
    if a.const() is not None:
        c = a.const()
        if op == "ashr" and c >> (w - 1):
            return K((c - (1 << w)) >> k, w)
        return K(c >> k, w)
    if op == "lshr":
        return V(w, tuple((lambda i=i: a.bit(i + k)) if i + k < w else P0 for i in range(w)))
    return V(w, tuple((lambda i=i: a.bit(min(i + k, w - 1))) for i in range(w)))


def bitop(a, b, f):
    w = a.w
    return V(w, tuple(f(a.bit(i), b.bit(i)) for i in range(w)))


def vmux(c, a, b):
    if c == P1:
        return a
    if c == P0:
        return b
    if isinstance(a, Ptr) or isinstance(b, Ptr):
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
            return Ptr(a.base, vmux(c, a.off, b.off))
        raise Top("choice of pointers")
    if a is b or a.key() == b.key():
        return a
    return V(a.w, tuple(mux(c, a.bit(i), b.bit(i)) for i in range(a.w)))


class Ptr:
    __slots__ = ("base", "off")

    def __init__(s, base, off):
        s.base, s.off = base, off

    def key(s):
        return ("p", s.base, s.off.key())

    def __repr__(s):
        return "%s+%r" % (s.base, s.off)


class Effect:
    """a store to a caller's object (or at an unknown offset)"""
    __slots__ = ("base", "off", "w", "val", "cond", "loc")

    def __init__(s, base, off, w, val, cond, loc):
        s.base, s.off, s.w, s.val, s.cond, s.loc = base, off, w, val, cond, loc


class Summary:
    """transfer function of one pass through a loop, from fresh values"""

    def __init__(s, func, hdr, loc):
        s.func, s.hdr, s.loc = func, hdr, loc
        s.phis = {}          # name -> (entry, symbolic value, value at the back edge)
        s.back = None        # condition of going round
        s.effects = []
        s.loads = []         # (base, offset, width, symbol)
        s.exits = 0


class Machine:
    def __init__(s, mod, opaque=(), space=None, limit=20000):
        s.m = mod
        s.sp = space or Space()
        s.opaque = set(opaque)
        s.objs = {}          # local object -> {offset: (w, V)}
        s.osize = {}         # local object -> size in bytes
        s.overrun = []       # accesses outside local objects
        s.ver = {}           # external object -> version
        s.nst = {}           # external object -> number of stores at fixed offsets
        s.known = {}         # (base, offset key, version) -> V
        s.effects = []
        s.loads = []
        s.sums = []
        s.uid = 0
        s.depth = 0
        s.unrolled = 0
        s.limit = limit
        s.funcs = set()
        s.ninstr = 0
        s.globmem = {}
        s.calls = []
        s.hooks = {}         # function -> replacement(args, condition, loc)

    # ------------------------------------------------------------------ globals
    def gbytes(s, name):
        if name in s.globmem:
            return s.globmem[name]
        g = s.m.globs.get(name)
        r = None
        if g is not None and g.const and g.init is not None:
            buf = bytearray(s.m.size(g.ty))
            try:
                s.fill(buf, 0, g.ty, g.init)
                r = bytes(buf)
            except (AnalysisBroken, KeyError, TypeError):
                r = None
        s.globmem[name] = r
        return r

    def fill(s, buf, o, t, v):
        if v[0] == "z":
            return
        if t.k == "int":
            if v[0] != "c":
                raise AnalysisBroken("initialiser")
            n = (t.w + 7) // 8
            buf[o:o + n] = (v[1] & ((1 << (8 * n)) - 1)).to_bytes(n, "little")
        elif t.k == "arr":
            es = s.m.size(t.e)
            for i, x in enumerate(v[1]):
                s.fill(buf, o + i * es, t.e, x)
        elif t.k == "struct":
            for i, x in enumerate(v[1]):
                s.fill(buf, o + s.m.field_off(t, i), t.fs[i], x)
        else:
            raise AnalysisBroken("initialiser")

    def table(s, name, off, w, cond):
        """load of a constant at a symbolic offset"""
        data = s.gbytes(name)
        n = w // 8
        k = off.key()
        # index: offset / n
        idx = None
        if off.lin is None or off.const() is None:
            sh = n.bit_length() - 1
            b = off.bits()
            if any(x != P0 for x in b[:sh]):
                raise Top("unaligned table index")
            idx = b[sh:]
        cnt = len(data) // n
        nb = max(1, (cnt - 1).bit_length())
        s.loads.append(("@" + name, off, w, None, cond))
        if any(x != P0 for x in idx[nb:]):
            return symv(s.topsym("table index out of range", w))
        vals = [int.from_bytes(data[i * n:i * n + n], "little") for i in range(cnt)]
        idx = idx[:nb]
        if cnt > 256:
            return symv(s.sp.sym("%s[..]" % name, w, ("tab", name, k)))

        def outbit(j):
            f = [v >> j & 1 for v in vals]
            if cnt & (cnt - 1) == 0:
                d = [f[1 << q] ^ f[0] for q in range(nb)]
                if all(f[x] == f[0] ^ par(sum(d[q] << q for q in range(nb)) & x) for x in range(cnt)):
                    r = P1 if f[0] else P0
                    for q in range(nb):
                        if d[q]:
                            r = px(r, idx[q])
                    return r
            # general: algebraic normal form of the table, composed
            a = f + [0] * ((1 << nb) - cnt)
            for q in range(nb):
                for x in range(1 << nb):
                    if x >> q & 1:
                        a[x] ^= a[x ^ (1 << q)]
            r = P0
            for x in range(1 << nb):
                if a[x]:
                    t = P1
                    for q in range(nb):
                        if x >> q & 1:
                            t = pm(t, idx[q])
                    r = px(r, t)
            return r
        return V(w, tuple((lambda j=j: outbit(j)) for j in range(w)))

    def topsym(s, why, w):
        s.uid += 1
        y = Sym(s.sp, "top%d:%s" % (s.uid, why), w)
        y.top = True
        return y

    # ------------------------------------------------------------------- memory
    def load(s, p, w, cond, loc):
        if not isinstance(p, Ptr):
            raise Top("load through unknown pointer")
        base, off = p.base, p.off
        c = off.const()
        if base[0] == "@":
            data = s.gbytes(base[1:])
        else:
            data = None
        if data is not None:
            if c is not None:
                n = w // 8
                s.loads.append((base, off, w, None, cond))
                if c + n > len(data):
                    return symv(s.topsym("constant out of range", w))
                return K(int.from_bytes(data[c:c + n], "little"), w)
            return s.table(base[1:], off, w, cond)
        if base in s.objs:
            s.local(base, c, w, cond, loc, "read")
            if c is None:
                return symv(s.topsym("array element", w))
            o = s.objs[base]
            r = o.get(c)
            if r is not None and r[0] == w:
                return r[1]
            if r is None and not any(k < c + w // 8 and k + o[k][0] // 8 > c for k in o):
                v = symv(s.topsym("uninitialised", w))
                o[c] = (w, v)
                return v
            return s.gather(o, c, w)
        if w > 8:
            bs = [s.load(Ptr(base, add(off, K(j, 64))), 8, cond, loc) for j in range(w // 8)]
            return V(w, tuple((lambda i=i: bs[i // 8].bit(i % 8)) for i in range(w)))
        ver = s.ver.get(base, 0)
        if c is None and s.nst.get(base):
            ver = (ver, s.nst[base])
        k = (base, off.key(), w, ver)
        if k in s.known:
            return s.known[k]
        y = s.sp.sym("%s[%s]%s" % (base, c if c is not None else "..", "'" if ver else ""), w, ("ld",) + k)
        if ver:
            y.top = True         # may or may not have been overwritten
        s.loads.append((base, off, w, y, cond))
        v = symv(y)
        s.known[k] = v
        return v

    def local(s, base, c, w, cond, loc, what):
        n = s.osize.get(base)
        if n is not None and c is not None and c + w // 8 > n and (cond is None or cond == P1):
            s.overrun.append((loc, "byte %d of %s is %s, size %d" % (c - (1 << 64) if c >> 63 else c, base.split("#")[0], what, n)))

    def gather(s, o, c, w):
        out = []
        for k in range(w // 8):
            x = c + k
            for q in (x, x - 1, x - 2, x - 3, x - 4, x - 5, x - 6, x - 7):
                if q in o and q + o[q][0] // 8 > x:
                    vv = o[q][1]
                    out.extend(vv.bit(8 * (x - q) + j) for j in range(8))
                    break
            else:
                raise Top("partly initialised value")
        return V(w, tuple(out))

    def store(s, p, v, w, cond, loc):
        if not isinstance(p, Ptr):
            raise Top("store through unknown pointer")
        base, off = p.base, p.off
        c = off.const()
        if base in s.objs:
            s.local(base, c, w, cond, loc, "written")
            o = s.objs[base]
            if c is None:
                for k in o:
                    o[k] = (o[k][0], symv(s.topsym("array element", o[k][0])))
                s.effects.append(Effect(base, off, w, v, cond, loc))
                return
            for k in list(o):
                if k != c and k < c + w // 8 and k + o[k][0] // 8 > c or k == c and o[k][0] != w:
                    ow, ov = o.pop(k)
                    for j in range(ow // 8):
                        o[k + j] = (8, V(8, tuple(ov.bit(8 * j + q) for q in range(8))))
                    for j in range(w // 8):
                        o.pop(c + j, None) if cond == P1 else None
            if cond != P1:
                old = o.get(c)
                ov = old[1] if old is not None and old[0] == w else None
                if ov is None:
                    try:
                        ov = s.gather(o, c, w)
                    except Top:
                        ov = symv(s.topsym("uninitialised", w))
                for j in range(1, w // 8):
                    o.pop(c + j, None)
                v = vmux(cond, v, ov)
            o[c] = (w, v)
            return
        if w > 8:
            for j in range(w // 8):
                s.store(Ptr(base, add(off, K(j, 64))), s.trunc(shift(v, 8 * j, "lshr"), 8), 8, cond, loc)
            return
        s.effects.append(Effect(base, off, w, v, cond, loc))
        old = None
        if cond != P1:
            old = s.load(p, w, cond, loc)
        if c is None:
            s.ver[base] = s.ver.get(base, 0) + 1
        else:
            s.nst[base] = s.nst.get(base, 0) + 1
        ver = s.ver.get(base, 0)
        if c is None and s.nst.get(base):
            ver = (ver, s.nst[base])
        s.known[(base, off.key(), w, ver)] = v if cond == P1 else vmux(cond, v, old)

    # ------------------------------------------------------------------ evaluation
    def val(s, env, o, ty):
        k = o[0]
        if k == "l":
            if o[1] not in env:
                raise Top("value %s" % o[1])
            return env[o[1]]
        if k == "c":
            if ty.k == "ptr":
                return Ptr("null", K(o[1], 64))
            return K(o[1], ty.w)
        if k == "g":
            return Ptr("@" + o[1], K(0, 64))
        if k == "u":
            return symv(s.topsym("undefined", ty.w or 64))
        if k == "z":
            return K(0, ty.w or 64)
        if k == "cgep":
            b = s.val(env, o[2], ir.PTR)
            return s.gep(b, o[1], [(t, s.val(env, v, t)) for t, v in o[3]])
        raise Top("operand")

    def gep(s, b, et, idx):
        if not isinstance(b, Ptr):
            raise Top("pointer arithmetic")
        off = b.off
        t = et
        for i, (it, v) in enumerate(idx):
            if i == 0:
                off = add(off, mulc(s.ext(v, 64, True), s.m.size(t)))
                continue
            if t.k == "struct":
                k = v.const()
                off = add(off, K(s.m.field_off(t, k), 64))
                t = t.fs[k]
            else:
                t = t.e
                off = add(off, mulc(s.ext(v, 64, True), s.m.size(t)))
        return Ptr(b.base, off)

    @staticmethod
    def ext(v, w, signed):
        if v.w == w:
            return v
        c = v.const()
        if c is not None:
            if signed and c >> (v.w - 1):
                c -= 1 << v.w
            return K(c, w)
        if v.lin is not None and v.w >= 32:
            # index arithmetic: values stay below 2^31
            M = 1 << v.w
            sg = lambda k: k - M if k >> (v.w - 1) else k
            return V(w, lin=(sg(v.lin[0]) & ((1 << w) - 1), {y: sg(k) & ((1 << w) - 1) for y, k in v.lin[1].items()}))
        n = v.w
        return V(w, tuple((lambda i=i: v.bit(min(i, n - 1))) if i < n or signed else P0 for i in range(w)))

    @staticmethod
    def trunc(v, w):
        if v.lin is not None:
            M = (1 << w) - 1
            return V(w, lin=(v.lin[0] & M, {y: k & M for y, k in v.lin[1].items() if k & M}))
        return V(w, tuple((lambda i=i: v.bit(i)) for i in range(w)))

    def zero(s, ps):
        """the condition that all of these are zero"""
        b = basis(ps)
        if b is None:
            return P0
        if len(b) <= 10:
            try:
                r = P1
                for x in b:
                    r = pm(r, pnot(x))
                return r
            except Top:
                pass
        return s.sp.pred(("eq0", b))

    @staticmethod
    def tabulate(a, b, f):
        """comparison of two words over few variables, by cases"""
        m = bitvars(a) | bitvars(b)
        vs = [1 << i for i in range(m.bit_length()) if m >> i & 1]
        if len(vs) > 10:
            return None
        t = []
        for x in range(1 << len(vs)):
            on = 0
            for i, v in enumerate(vs):
                if x >> i & 1:
                    on |= v
            t.append(1 if f(atpoint(a, on), atpoint(b, on)) else 0)
        for q in range(len(vs)):
            for x in range(len(t)):
                if x >> q & 1:
                    t[x] ^= t[x ^ (1 << q)]
        aff, nl = 0, []
        for x, y in enumerate(t):
            if y:
                k = 0
                for i, v in enumerate(vs):
                    if x >> i & 1:
                        k |= v
                if k & (k - 1) == 0:
                    aff ^= k if k else 1
                else:
                    nl.append(k)
        return (aff, frozenset(nl))

    def cmp(s, pr, a, b):
        if isinstance(a, Ptr) or isinstance(b, Ptr):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.base == b.base:
                return s.cmp(pr.replace("s", "u") if pr[0] == "s" else pr, a.off, b.off)
            if isinstance(a, Ptr) and isinstance(b, Ptr) and pr in ("eq", "ne"):
                return P0 if pr == "eq" else P1
            raise Top("pointer comparison")
        w = a.w
        if pr == "ne":
            return pnot(s.cmp("eq", a, b))
        ca, cb = a.const(), b.const()
        if pr == "eq":
            if ca is not None and cb is not None:
                return P1 if ca == cb else P0
            if a.lin is not None and b.lin is not None:
                d = add(a, b, True)
                if d.const() is not None:
                    return P1 if d.const() == 0 else P0
                if not (len(d.lin[1]) == 1 and d.lin[0] == 0 and next(iter(d.lin[1])).w <= 8):
                    return s.sp.pred(("eq", a.key(), b.key(), w))
            df = [px(a.bit(i), b.bit(i)) for i in range(w)]
            if P1 in df:
                return P0
            nz = [x for x in df if x != P0]
            if len(nz) <= 10:
                try:
                    r = P1
                    for x in nz:
                        r = pm(r, pnot(x))
                    return r
                except Top:
                    pass
            return s.zero(nz)
        sw = {"ugt": "ult", "uge": "ule", "sgt": "slt", "sge": "sle"}
        if pr in sw:
            return s.cmp(sw[pr], b, a)
        if pr == "ule":
            return pnot(s.cmp("ult", b, a))
        if pr == "sle":
            return pnot(s.cmp("slt", b, a))
        if ca is not None and cb is not None:
            if pr == "slt":
                sg = lambda c: c - (1 << w) if c >> (w - 1) else c
                ca, cb = sg(ca), sg(cb)
            return P1 if ca < cb else P0
        if pr == "ult" and cb is not None and cb and cb & (cb - 1) == 0 and a.lin is None:
            # below a power of two: high bits clear
            nz = [a.bit(i) for i in range(cb.bit_length() - 1, w)]
            nz = [x for x in nz if x != P0]
            if P1 in nz:
                return P0
            if not nz:
                return P1
        if a.lin is not None and b.lin is not None:
            d = add(a, b, True)
            c = d.const()
            if c is not None:
                return P1 if c >> (w - 1) else P0
        else:
            try:
                if a.lin is None or len(a.lin[1]) == 0 or b.lin is None or len(b.lin[1]) == 0:
                    sg = (lambda c: c - (1 << w) if c >> (w - 1) else c) if pr == "slt" else (lambda c: c)
                    r = s.tabulate(a, b, lambda x, y: sg(x) < sg(y))
                    if r is not None:
                        return r
                nz = [i for i in range(w) if a.bit(i) != b.bit(i)]
                if nz and all(a.bit(i) in (P0, P1) and b.bit(i) in (P0, P1) for i in nz[-1:]) and pr == "ult":
                    return P1 if b.bit(nz[-1]) == P1 else P0
                if len([i for i in range(w) if a.bit(i) not in (P0, P1) or b.bit(i) not in (P0, P1)]) <= 9 and pr == "ult":
                    r = P0
                    for i in range(w):
                        x, y = a.bit(i), b.bit(i)
                        r = mux(px(x, y), y, r)
                    return r
            except Top:
                pass
        return s.sp.pred((pr, a.key(), b.key(), w))

    def binop(s, op, a, b):
        w = a.w
        ca, cb = a.const(), b.const()
        if op == "add":
            return add(a, b)
        if op == "sub":
            return add(a, b, True)
        if op == "mul":
            if cb is not None:
                return mulc(a, cb)
            if ca is not None:
                return mulc(b, ca)
            raise Top("product")
        if op in ("and", "or", "xor"):
            if ca is not None and cb is not None:
                return K(ca & cb if op == "and" else ca | cb if op == "or" else ca ^ cb, w)
            if op == "and":
                for x, c in ((a, cb), (b, ca)):
                    if c is not None:
                        if c == (1 << w) - 1:
                            return x
                        return V(w, tuple((lambda i=i: x.bit(i)) if c >> i & 1 else P0 for i in range(w)))
                return bitop(a, b, pm)
            for x, c in ((a, cb), (b, ca)):
                if c == 0:
                    return x
            if op == "or":
                return bitop(a, b, por)
            for x, c in ((a, cb), (b, ca)):
                if c is not None:
                    return V(w, tuple((lambda i=i: pnot(x.bit(i))) if c >> i & 1 else (lambda i=i: x.bit(i)) for i in range(w)))
            return bitop(a, b, px)
        if op in ("shl", "lshr", "ashr"):
            if cb is not None:
                if cb >= w:
                    raise Top("shift count")
                return shift(a, cb, op)
            # variable count: select
            bb = [(i, b.bit(i)) for i in range(w) if b.bit(i) != P0]
            if len(bb) > 6:
                raise Top("variable shift")
            r = a
            for i, x in bb:
                if 1 << i < w:
                    r = vmux(x, shift(r, 1 << i, op), r)
            return r
        if op == "udiv" and cb and cb & (cb - 1) == 0:
            return shift(a, cb.bit_length() - 1, "lshr")
        if op == "urem" and cb and cb & (cb - 1) == 0:
            return s.binop("and", a, K(cb - 1, w))
        if ca is not None and cb:
            if op == "udiv":
                return K(ca // cb, w)
            if op == "urem":
                return K(ca % cb, w)
            sg = lambda c: c - (1 << w) if c >> (w - 1) else c
            x, y = sg(ca), sg(cb)
            q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
            return K(q if op == "sdiv" else x - q * y, w)
        if op in ("sdiv", "srem") and cb and cb & (cb - 1) == 0 and a.lin is not None:
            return s.binop("udiv" if op == "sdiv" else "urem", a, b)      # index arithmetic is not negative
        raise Top(op)

    # ------------------------------------------------------------------ functions
    def call(s, name, args, cond=P1):
        f = s.m.funcs.get(name)
        if f is None or not f.order:
            raise Top("call of " + str(name))
        if s.depth > 12:
            raise Top("call depth")
        s.depth += 1
        s.funcs.add(name)
        env = {}
        for p, a in zip(f.params, args):
            env[p[0]] = a
        rets = []
        c = cfg(f)
        inc = {f.order[0]: [(None, cond, {})]}
        s.region(f, c, [b for b in c.rpo], None, inc, env, rets)
        s.depth -= 1
        if not rets:
            return None
        r = rets[0][1]
        for cd, v in rets[1:]:
            if v is not None:
                r = vmux(cd, v, r)
        return r

    def region(s, f, c, order, hdr, inc, env, rets):
        """process blocks (in reverse post-order); edges leaving go to inc of others.
        returns the back edges to hdr and the edges that leave `order`"""
        inside = set(order)
        back, out = [], []
        done = set()
        for b in order:
            if b in done or b not in inc or (b in c.loops and b != hdr):
                if b in c.loops and b != hdr and b in inc and b not in done:
                    body = [x for x in order if x in c.loops[b]]
                    es = s.loop(f, c, b, body, inc.pop(b), env, rets)
                    done.update(body)
                    for e in es:
                        s.route(e, inside, hdr, inc, back, out)
                continue
            es = s.block(f, b, inc.pop(b), env, rets)
            for e in es:
                s.route(e, inside, hdr, inc, back, out)
        return back, out

    @staticmethod
    def route(e, inside, hdr, inc, back, out):
        to = e[0]
        if to == hdr:
            back.append(e[1:])
        elif to in inside:
            inc.setdefault(to, []).append(e[1:])
        else:
            out.append(e)

    def join(s, f, b, edges, env):
        """merge incoming edges: path condition and phi values"""
        g = P0
        for _, cd, _ in edges:
            g = px(g, cd)       # edges are mutually exclusive
        for ins in f.blocks[b].ins:
            if ins.op != "phi":
                break
            v = None
            for _, cd, ph in edges:
                x = ph[ins.res]
                v = x if v is None else vmux(cd, x, v)
            env[ins.res] = v
        return g

    def block(s, f, b, edges, env, rets, preset=None):
        edges = [e for e in edges if e[1] != P0]
        if not edges:
            return []
        if preset is None:
            g = s.join(f, b, edges, env)
        else:
            g = preset
        if g == P0:
            return []
        out = []
        for ins in f.blocks[b].ins:
            s.ninstr += 1
            if s.ninstr > 3000000:
                raise Top("too long")
            op = ins.op
            if op == "phi":
                continue
            if op == "br":
                out.append((ins.extra, g))
            elif op == "cbr":
                cd = s.val(env, ins.ops[0], ir.INT(1)).bit(0)
                t, e = ins.extra
                out.append((t, pm(g, cd)))
                out.append((e, pm(g, pnot(cd))))
            elif op == "switch":
                v = s.val(env, ins.ops[0], ins.ty)
                rest = g
                for k, t in ins.extra[1]:
                    cd = s.cmp("eq", v, K(k, v.w))
                    out.append((t, pm(rest, cd)))
                    rest = pm(rest, pnot(cd))
                out.append((ins.extra[0], rest))
            elif op == "ret":
                rets.append((g, s.val(env, ins.ops[0], ins.ty) if ins.ops else None))
            elif op == "unreachable":
                pass
            else:
                r = s.instr(f, ins, env, g)
                if ins.res is not None:
                    env[ins.res] = r
        # merge edges to the same target
        res = []
        for t, cd in out:
            if cd == P0:
                continue
            ph = {}
            for i2 in f.blocks[t].ins:
                if i2.op != "phi":
                    break
                for v, bl in i2.extra:
                    if bl == b:
                        ph[i2.res] = s.val(env, v, i2.ty)
            res.append((t, b, cd, ph))
        return res

    def instr(s, f, ins, env, g):
        op = ins.op
        val = lambda i, t: s.val(env, ins.ops[i], t)
        if op == "bin":
            return s.binop(ins.extra, val(0, ins.ty), val(1, ins.ty))
        if op == "icmp":
            return V(1, (s.cmp(ins.extra, val(0, ins.ty), val(1, ins.ty)),))
        if op in ("zext", "sext"):
            return s.ext(val(0, ins.extra), ins.ty.w, op == "sext")
        if op == "trunc":
            return s.trunc(val(0, ins.extra), ins.ty.w)
        if op == "select":
            return vmux(val(0, ir.INT(1)).bit(0), val(1, ins.ty), val(2, ins.ty))
        if op == "freeze":
            return val(0, ins.ty)
        if op == "gep":
            return s.gep(val(0, ir.PTR), ins.extra[0], [(t, s.val(env, v, t)) for t, v in ins.extra[1]])
        if op == "alloca":
            s.uid += 1
            nm = "%s/%s#%d" % (f.name, ins.res, s.uid)
            s.objs[nm] = {}
            if ins.extra is None or ins.extra == ("c", 1):
                s.osize[nm] = s.m.size(ins.ty)
            return Ptr(nm, K(0, 64))
        if op == "load":
            if ins.ty.k == "ptr":
                raise Top("pointer in memory")
            return s.load(val(0, ir.PTR), ins.ty.w, g, s.m.loc(ins.dbg))
        if op == "store":
            s.store(val(1, ir.PTR), val(0, ins.ty), ins.ty.w, g, s.m.loc(ins.dbg))
            return None
        if op == "call":
            nm = ins.extra[0]
            args = [s.val(env, a, t) for a, t in zip(ins.ops, ins.extra[1])]
            if nm in s.hooks:
                return s.hooks[nm](args, g, s.m.loc(ins.dbg))
            if nm and nm.startswith("llvm.ctpop"):
                v = args[0]

                def parity():
                    r = P0
                    for i in range(v.w):
                        r = px(r, v.bit(i))
                    return r

                def more():
                    raise Top("bit count")
                return V(v.w, (parity,) + (more,) * (v.w - 1))
            if nm in s.opaque:
                y = s.sp.sym(nm, ins.ty.w, ("call", nm) + tuple(a.key() for a in args))
                s.calls.append((nm, args, y, s.m.loc(ins.dbg)))
                return symv(y)
            if nm and nm.startswith(("llvm.memset", "memset")):
                d, v, n = args[:3]
                for k in range(need(n)):
                    s.store(Ptr(d.base, add(d.off, K(k, 64))), s.trunc(v, 8), 8, g, s.m.loc(ins.dbg))
                return d
            if nm and nm.startswith(("llvm.memcpy", "memcpy", "llvm.memmove", "memmove")):
                d, q, n = args[:3]
                vs = [s.load(Ptr(q.base, add(q.off, K(k, 64))), 8, g, None) for k in range(need(n))]
                for k, v in enumerate(vs):
                    s.store(Ptr(d.base, add(d.off, K(k, 64))), v, 8, g, s.m.loc(ins.dbg))
                return d
            if nm and nm.startswith("llvm.lifetime"):
                return None
            return s.call(nm, args, g)
        raise Top(op)

    # ------------------------------------------------------------------ loops
    def snapshot(s):
        return ({k: dict(v) for k, v in s.objs.items()}, dict(s.ver), dict(s.known), len(s.effects), len(s.loads), len(s.sums), len(s.calls), dict(s.nst))

    def restore(s, sn):
        s.objs, s.ver, s.known = {k: dict(v) for k, v in sn[0].items()}, dict(sn[1]), dict(sn[2])
        del s.effects[sn[3]:]
        del s.loads[sn[4]:]
        del s.sums[sn[5]:]
        del s.calls[sn[6]:]
        s.nst = dict(sn[7])

    def loop(s, f, c, hdr, body, edges, env, rets):
        edges = [e for e in edges if e[1] != P0]
        if not edges:
            return []
        sn = s.snapshot()
        nr = len(rets)
        env0 = dict(env)
        outs = []
        cur = edges
        n = 0
        why = None
        known = 0
        for _, cd, _ in edges:
            known |= cd[0]
            for x in cd[1]:
                known |= x
        hard = s.lenpred((known & ~1, E))
        while True:
            n += 1
            s.unrolled += 1
            if n > s.limit or hard and n > 5000:
                if hard:
                    raise Top("loop under an unknown condition")
                raise Runaway("loop at %s:%s goes on after %d passes" % (s.m.loc(f.blocks[hdr].ins[-1].dbg) + (n - 1,)))
            try:
                back, out = s.region(f, c, body, hdr, {hdr: cur}, env, rets)
            except Top as e:
                why = e
                break
            gb = P0
            for _, cd, _ in back:
                gb = px(gb, cd)
            if s.lenpred(gb, known):
                why = "length"
                break
            outs += out
            cur = [e for e in back if e[1] != P0]
            if not cur:
                return outs
            if len(gb[1]) > 3000:
                raise Top("loop condition")
        s.restore(sn)
        del rets[nr:]
        env.clear()
        env.update(env0)
        return s.summary(f, c, hdr, body, edges, env, rets)

    def lenpred(s, p, known=0):
        """does the condition depend on a symbolic comparison (not already part of the path condition)?"""
        m = p[0]
        for x in p[1]:
            m |= x
        m &= ~known
        return any(m >> v & 1 for v in s.sp.preds)

    def summary(s, f, c, hdr, body, edges, env, rets):
        loc = s.m.loc(f.blocks[hdr].ins[-1].dbg)
        L = Summary(f.name, hdr, loc)
        g = s.join(f, hdr, edges, env)
        phis = [i for i in f.blocks[hdr].ins if i.op == "phi"]
        cells = None
        sn = s.snapshot()
        env0 = dict(env)
        nr = len(rets)
        for attempt in range(3):
            # memory that the loop changes takes part like a phi
            for i in phis:
                ent = env0[i.res]
                nm = "%s:%s" % (f.name, i.res.lstrip("%"))
                if isinstance(ent, Ptr):
                    y = s.sp.sym(nm, 64)
                    v = Ptr(ent.base, symv(y))
                else:
                    y = s.sp.sym(nm, i.ty.w)
                    v = symv(y)
                env[i.res] = v
                L.phis[i.res] = [ent, v, None]
            for (o, k) in cells or ():
                w, ent = s.objs[o][k]
                y = s.sp.sym("%s+%d" % (o, k), w)
                s.objs[o][k] = (w, symv(y))
                L.phis[(o, k)] = [ent, s.objs[o][k][1], None]
            e0, l0 = len(s.effects), len(s.loads)
            pre = {o: dict(d) for o, d in s.objs.items()}
            for b in s.ver:
                s.ver[b] += 1000
            back, out = s.region(f, c, body, hdr, {hdr: [("", g, {i.res: env[i.res] for i in phis})]}, env, rets)
            mod = {(o, k) for o, d in pre.items() if o in s.objs for k in d if s.objs[o].get(k, (0, None))[1] is not d[k][1]}
            if cells is None and not mod or cells is not None and mod <= cells:
                break
            cells = (cells or set()) | mod
            s.restore(sn)
            del rets[nr:]
            env.clear()
            env.update(env0)
            L.phis.clear()
        else:
            raise Top("loop over memory")
        if len(rets) > nr:
            raise Top("return inside a loop of unknown length")
        gb = P0
        for _, cd, _ in back:
            gb = px(gb, cd)
        L.back = gb
        for i in phis:
            v = None
            for _, cd, ph in back:
                v = ph[i.res] if v is None else vmux(cd, ph[i.res], v)
            L.phis[i.res][2] = v
        for (o, k) in cells or ():
            L.phis[(o, k)][2] = s.objs[o][k][1]
            s.objs[o][k] = (s.objs[o][k][0], L.phis[(o, k)][1])
        L.effects = s.effects[e0:]
        L.loads = s.loads[l0:]
        L.exits = len(out)
        for x in L.effects:
            s.ver[x.base] = s.ver.get(x.base, 0) + 1000
        s.sums.append(L)
        if len(out) == 1:
            t, b, cd, ph = out[0]
            return [(t, b, g, ph)]
        res = []
        rest = g
        for n, (t, b, cd, ph) in enumerate(out):
            if n == len(out) - 1:
                res.append((t, b, rest, ph))
            else:
                v = s.sp.pred(("exit", f.name, hdr, n))
                res.append((t, b, pm(rest, v), ph))
                rest = pm(rest, pnot(v))
        return res


def evalp(p, on):
    """value of a polynomial when exactly the variables in `on` are one"""
    r = bin(p[0] & (on | 1)).count("1") & 1
    for m in p[1]:
        if m & on == m:
            r ^= 1
    return r


def atpoint(v, on):
    return sum(evalp(v.bit(i), on) << i for i in range(v.w))


def subst(p, mp, vs):
    """replace variables (mask vs) by polynomials"""
    r = (p[0] & ~vs, frozenset(m for m in p[1] if not m & vs))
    a = p[0] & vs
    while a:
        x = a & -a
        r = px(r, mp[x])
        a ^= x
    for m in p[1]:
        if m & vs:
            k = m & ~vs
            t = (k if k else 1, E) if k & (k - 1) == 0 else (0, frozenset([k]))
            a = m & vs
            while a:
                x = a & -a
                t = pm(t, mp[x])
                a ^= x
            r = px(r, t)
    return r


def need(v):
    c = v.const()
    if c is None or c > 4096:
        raise Top("block operation of unknown size")
    return c


def par(x):
    return bin(x).count("1") & 1


def newsym(m, name, w):
    return symv(m.sp.sym(name, w))


def bitvars(v):
    m = 0
    for i in range(v.w):
        p = v.bit(i)
        m |= p[0]
        for x in p[1]:
            m |= x
    return m & ~1


def istop(m, v):
    """does a value depend on lost information?"""
    x = bitvars(v)
    return any(x >> t & 1 for t in m.sp.tops)
