"""Hash-consed value terms: the abstract value domain (value numbering with a
normal form for page/block arithmetic).

Machine words are polynomials modulo 2^w over atoms; powers of two with a
symbolic exponent combine; x>>n, x&(2^n-1), x&~(2^n-1), x|(2^n-1) have one
normal form however they are written; bytes of a word recombine to the word
(only in little-endian order); comparisons are lifted to integer inequalities
whenever static ranges exclude wrap-around.  w == 0 means a mathematical
integer.
"""
import math

_tab = {}
_next = [0]


class T:
    __slots__ = ("op", "w", "a", "id", "conds", "_b", "_z", "_h")

    def __repr__(s):
        return show(s)


def mk(op, w, *a):
    key = (op, w, a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.w, t.a = op, w, a
        t.id = _next[0]
        _next[0] += 1
        t._b = None
        t._z = None
        cs = None
        for x in a:
            if isinstance(x, T):
                if x.conds:
                    cs = x.conds if cs is None else cs | x.conds
            elif isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        y = y[0]
                    if isinstance(y, T) and y.conds:
                        cs = y.conds if cs is None else cs | y.conds
        if op == "ite":
            cs = (cs or frozenset()) | {a[0]}
        t.conds = cs
        _tab[key] = t
    return t


def M(w):
    return (1 << w) - 1


def C(v, w):
    return mk("c", w, v if w == 0 else v & M(w))


TRUE = mk("c", 1, 1)
FALSE = mk("c", 1, 0)
Z0 = mk("c", 0, 0)

SYMRANGE = {}
LE_PAIRS = []  # (small T, big T) ints known small <= big


def S(name, w, lo=0, hi=None):
    t = mk("s", w, name)
    if hi is not None or lo:
        SYMRANGE[t] = (lo, M(w) if hi is None else hi)
    return t


def isc(t):
    return t.op == "c"


def cv(t):
    return t.a[0]


def cen(v, w):
    if w == 0:
        return v
    v &= M(w)
    return v - (1 << w) if v >> (w - 1) else v


# ---------------------------------------------------------------------------
# bounds (unsigned for machine terms)
def bounds(t):
    b = t._b
    if b is None:
        b = t._b = _bounds(t)
    return b


INF = 1 << 200


def _full(w):
    return (0, M(w)) if w else (-INF, INF)


def _bounds(t):
    op, w = t.op, t.w
    if op == "c":
        return (t.a[0], t.a[0])
    if op == "s":
        return SYMRANGE.get(t, _full(w))
    if op == "zx":
        return bounds(t.a[0])
    if op == "sx0":
        x = t.a[0]
        return (-(1 << (x.w - 1)), (1 << (x.w - 1)) - 1)
    if op == "byte":
        if t.a[1] == 0:
            b = bounds(t.a[0])
            if b[1] <= 255:
                return b
        return (0, 255)
    if op == "lin":
        lo, hi = zbounds_lin(t)
        if w == 0 or (lo >= 0 and hi <= M(w)):
            return (lo, hi)
        return _full(w)
    if op == "mul":
        lo, hi = _mulz(t)
        if w == 0 or (lo >= 0 and hi <= M(w)):
            return (lo, hi)
        return _full(w)
    if op == "div":
        x, e = t.a
        xb, eb = bounds(x), bounds(e)
        if eb[0] < 0:
            return _full(w)
        return (xb[0] >> min(eb[1], 300), xb[1] >> min(eb[0], 300))
    if op == "mod":
        x, e = t.a
        xb, eb = bounds(x), bounds(e)
        hi = (1 << min(max(eb[1], 0), 300)) - 1
        return (0, min(hi, xb[1]))
    if op == "udiv":
        xb, yb = bounds(t.a[0]), bounds(t.a[1])
        if yb[0] > 0:
            return (xb[0] // yb[1], xb[1] // yb[0])
        return (0, xb[1])
    if op == "urem":
        return (0, max(0, min(bounds(t.a[0])[1], bounds(t.a[1])[1] - 1)))
    if op == "ite":
        c, a, b = t.a
        ba, bb = bounds(a), bounds(b)
        ba = refine(ba, a, c, True)
        bb = refine(bb, b, c, False)
        return (min(ba[0], bb[0]), max(ba[1], bb[1]))
    if op == "mask":
        x, m, c = t.a
        return (c, m | c)
    if op == "asn":
        hi = sbounds(t.a[0])[1]
        return (0, max(hi, 0) >> min(max(bounds(t.a[1])[0], 0), 300))
    if op == "and":
        return (0, min(bounds(x)[1] for x in t.a[0]))
    if op in ("or", "xor"):
        hi = max(bounds(x)[1] for x in t.a[0])
        return (0, (1 << hi.bit_length()) - 1)
    return _full(w)


def sbounds(t):
    """bounds of the signed value"""
    w = t.w
    if t.op == "lin":
        lo, hi = zbounds_lin(t)
    else:
        lo, hi = bounds(t)
    if lo >= -(1 << (w - 1)) and hi < 1 << (w - 1):
        return lo, hi
    return -(1 << (w - 1)), (1 << (w - 1)) - 1


def refine(b, x, c, pol):
    """tighten bounds b of x knowing the truth of ge0 condition c"""
    if c.op == "not":
        return refine(b, x, c.a[0], not pol)
    if c.op != "ge0":
        return b
    L = c.a[0]
    if not pol:
        L = neg_ge(L)
    zx = toZ(x)
    if zx is None:
        return b
    # L >= 0 ; L = k*zx + R  -> for k = +-1
    R = sub(L, zx)
    rb = bounds(R)
    # zx = L - R >= -R  => lower bound: -hi(R)
    lo, hi = b
    if rb[1] < INF // 2:
        lo = max(lo, -rb[1])
    R2 = add(L, zx)  # L = -zx + R2 >= 0 -> zx <= R2
    r2 = bounds(R2)
    if r2[1] < INF // 2:
        hi = min(hi, r2[1])
    if lo > hi:
        return b
    return (lo, hi)


def _mulz(t):
    e, fs = t.a
    lo = hi = 1
    if e is not None:
        eb = bounds(e)
        if eb[0] < 0 and LE_PAIRS and geZ(e):
            eb = (0, eb[1])
        if eb[0] < 0:
            # 2^negative cannot be represented; treat as full
            return (-1, INF)
        lo, hi = 1 << min(eb[0], 300), 1 << min(eb[1], 300)
    for f in fs:
        fb = bounds(f)
        if fb[0] < 0:
            return (-INF, INF)
        lo, hi = lo * fb[0], hi * fb[1]
    return (lo, hi)


def zb_atom(t):
    if t.op == "mul":
        return _mulz(t) if t.w == 0 else bounds(t)
    return bounds(t)


def zbounds_lin(t):
    """integer bounds of the centred linear expression"""
    if t._z is not None:
        return t._z
    c, ms = t.a
    lo = hi = cen(c, t.w)
    for m, k in ms:
        k = cen(k, t.w)
        b = zb_atom(m)
        if k >= 0:
            lo += k * b[0]
            hi += k * b[1]
        else:
            lo += k * b[1]
            hi += k * b[0]
    t._z = (lo, hi)
    return t._z


def zb(t):
    """centred integer bounds of any term"""
    if t.op == "lin":
        return zbounds_lin(t)
    if t.op == "c":
        v = cen(t.a[0], t.w)
        return (v, v)
    return bounds(t)


# ---------------------------------------------------------------------------
# linear / polynomial normal form
def tolin(t):
    if t.op == "lin":
        return t.a[0], dict(t.a[1])
    if t.op == "c":
        return t.a[0], {}
    return 0, {t: 1}


def fromlin(c, d, w):
    if w:
        m = M(w)
        c &= m
        d = {k: v & m for k, v in d.items()}
    d = {k: v for k, v in d.items() if v}
    if d and w >= 16:
        d = _recombine(d, w)
    if not d:
        return C(c, w)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    return mk("lin", w, c, tuple(sorted(d.items(), key=lambda x: x[0].id)))


def _recombine(d, w):
    groups = None
    for m in d:
        if m.op == "zx" and m.a[0].op == "byte":
            b = m.a[0]
            if groups is None:
                groups = {}
            groups.setdefault(b.a[0], {})[b.a[1]] = m
    if not groups:
        return d
    for x, g in groups.items():
        n = x.w // 8
        if len(g) < n or n < 2:
            continue
        if w < x.w:
            continue
        base = d.get(g.get(0))
        if base is None:
            continue
        if all(k in g and d[g[k]] == (base << (8 * k)) & M(w) for k in range(n)):
            d = dict(d)
            for k in range(n):
                del d[g[k]]
            xx = zext(x, w) if x.w < w else x
            c2, d2 = tolin(xx)
            if c2:
                # constant part: give back through a wrapper
                d2 = dict(d2)
                d[C1(w)] = (d.get(C1(w), 0) + base * c2) & M(w)
            for k, v in d2.items():
                d[k] = (d.get(k, 0) + base * v) & M(w)
            if C1(w) in d:
                # fold artificial constant atom
                pass
            d = {k: v for k, v in d.items() if v}
    return d


def C1(w):
    return mk("one", w)


def _fold_one(t):
    if t.op == "lin":
        c, ms = t.a
        for m, k in ms:
            if m.op == "one":
                d = dict(ms)
                del d[m]
                return fromlin(c + k, d, t.w)
    elif t.op == "one":
        return C(1, t.w)
    return t


def add(a, b):
    assert a.w == b.w, (a, b)
    ca, da = tolin(a)
    cb, db = tolin(b)
    if not db:
        if cb == 0:
            return a
    elif len(db) < len(da):
        pass
    for k, v in db.items():
        da[k] = da.get(k, 0) + v
    return _fold_one(fromlin(ca + cb, da, a.w))


def scale(a, k):
    if k == 1:
        return a
    c, d = tolin(a)
    return _fold_one(fromlin(c * k, {m: v * k for m, v in d.items()}, a.w))


def sub(a, b):
    return add(a, scale(b, -1))


def neg(a):
    return scale(a, -1)


def addk(a, k):
    return add(a, C(k, a.w))


def splitm(m):
    if m.op == "mul":
        return m.a
    return (None, (m,))


def mono(e, fs, w):
    """build monomial 2^e * prod(fs); e is a Z term or None. returns (coef, T or None)"""
    coef = 1
    if e is not None:
        c, d = tolin(e)
        if not d:
            if c >= 0:
                return mono_nz(1 << c, None, fs, w)
            e = C(c, 0)
        elif c > 0 and all(v > 0 for v in d.values()):
            coef = 1 << c
            e = fromlin(0, d, 0)
    return mono_nz(coef, e, fs, w)


def mono_nz(coef, e, fs, w):
    if e is None:
        if not fs:
            return coef, None
        if len(fs) == 1:
            return coef, fs[0]
    return coef, mk("mul", w, e, tuple(sorted(fs, key=lambda x: x.id)))


def p2(e, w):
    """2^e as a w-bit term; e a Z term"""
    if e.op == "ite" and isc(e.a[1]) and isc(e.a[2]):
        return ite(e.a[0], p2(e.a[1], w), p2(e.a[2], w))
    if isc(e):
        v = cv(e)
        if v < 0:
            return mk("mul", w, e, ())
        return C(1 << v, w) if v < 400 else C(0, w)
    coef, m = mono(e, (), w)
    return fromlin(0, {m: coef}, w)


def mul(a, b):
    assert a.w == b.w
    w = a.w
    ca, da = tolin(a)
    cb, db = tolin(b)
    if not da:
        return scale(b, ca)
    if not db:
        return scale(a, cb)
    if len(da) * len(db) > 12:
        return mk("mulx", w, *sorted((a, b), key=lambda x: x.id))
    # do not distribute over ite here
    out = C(ca * cb, w)
    d = {}
    for k, v in da.items():
        d[k] = d.get(k, 0) + v * cb
    for k, v in db.items():
        d[k] = d.get(k, 0) + v * ca
    c0 = ca * cb
    for k1, v1 in da.items():
        e1, f1 = splitm(k1)
        for k2, v2 in db.items():
            e2, f2 = splitm(k2)
            e = e1 if e2 is None else e2 if e1 is None else add(e1, e2)
            coef, m = mono(e, tuple(f1) + tuple(f2), w)
            coef *= v1 * v2
            if m is None:
                c0 += coef
            else:
                d[m] = d.get(m, 0) + coef
    out = fromlin(c0, d, w)
    return _shift_up_div(out)


def _shift_up_div(t):
    return t


# ---------------------------------------------------------------------------
# lifting to Z
def toZ(t):
    """Z term equal to the unsigned value of t (always exists)"""
    if t.w == 0:
        return t
    if isc(t):
        return C(cv(t), 0)
    if t.op == "zx":
        return toZ(t.a[0])
    if t.op == "lin":
        lo, hi = zbounds_lin(t)
        if lo >= 0 and hi <= M(t.w):
            c, ms = t.a
            r = C(cen(c, t.w), 0)
            for m, k in ms:
                r = add(r, scale(toZ(m), cen(k, t.w)))
            return r
        if lo < 0 and hi <= M(t.w) and LE_PAIRS:
            c, ms = t.a
            r = C(cen(c, t.w), 0)
            for m, k in ms:
                r = add(r, scale(toZ(m), cen(k, t.w)))
            if geZ(r):
                return r
        return mk("zx", 0, t)
    if t.op == "mul":
        lo, hi = _mulz(t)
        if lo >= 0 and hi <= M(t.w):
            e, fs = t.a
            r = C(1, 0)
            if e is not None:
                r = p2(e, 0)
            for f in fs:
                r = mul(r, toZ(f))
            return r
        return mk("zx", 0, t)
    if t.op == "ite":
        return ite(t.a[0], toZ(t.a[1]), toZ(t.a[2]))
    if t.op == "byte" and t.a[1] == 0 and bounds(t.a[0])[1] <= 255:
        return toZ(t.a[0])
    if t.op == "div":
        x, e = t.a
        return div(toZ(x), e)
    if t.op == "mod":
        x, e = t.a
        zx = toZ(x)
        return mod(zx, e)
    return mk("zx", 0, t)


def toZs(t):
    """Z term equal to the signed value of t"""
    w = t.w
    if w == 0:
        return t
    if isc(t):
        return C(cen(cv(t), w), 0)
    if t.op == "ite":
        return ite(t.a[0], toZs(t.a[1]), toZs(t.a[2]))
    if t.op == "lin":
        lo, hi = zbounds_lin(t)
        if lo >= -(1 << (w - 1)) and hi < (1 << (w - 1)):
            c, ms = t.a
            r = C(cen(c, w), 0)
            for m, k in ms:
                r = add(r, scale(toZ(m), cen(k, w)))
            return r
    if bounds(t)[1] < 1 << (w - 1):
        return toZ(t)
    return mk("sx0", 0, t)


def geZ(L):
    """is Z term provably >= 0 (static)"""
    if bounds(L)[0] >= 0:
        return True
    if L.op == "lin":
        for s, b in LE_PAIRS:
            s0, b0 = toZ(s), toZ(b)
            d = dict(L.a[1])
            ks, kb = d.get(s0, 0), d.get(b0, 0)
            if ks < 0 < kb:
                k = min(-ks, kb)
                R = sub(L, scale(sub(b0, s0), k))
                if bounds(R)[0] >= 0:
                    return True
        r = _gez.get(L)
        if r is None:
            r = _gez[L] = _powpair(L)
        return r
    return False


_gez = {}


def _powpair(L):
    """a*2^e*F - b*2^f*F >= (a-b)*2^f*F for e >= f: cancel such pairs"""
    c, d = tolin(L)
    d = dict(d)
    neg_ = [m for m, k in d.items() if k < 0]
    if not neg_ or len(d) > 12:
        return False
    for m in [m for m, k in d.items() if k > 0]:
        f, fs = splitm(m)
        if f is not None and not isc(f) and len(fs) == 1 and fs[0].op == "div" and fs[0].a[1] is f:
            y = fs[0].a[0]
            k = min(d[m], -d.get(y, 0))
            if k > 0:
                # 2^f * (y >> f) - y >= 1 - 2^f
                for x, z in ((y, k), (m, -k), (mono(f, (), 0)[1], -k)):
                    d[x] = d.get(x, 0) + z
                    if not d[x]:
                        del d[x]
                c += k
    neg_ = [m for m, k in d.items() if k < 0]
    for m in neg_:
        f, fs = splitm(m)
        if f is None or isc(f):
            continue
        if fs and min(bounds(y)[0] for y in fs) < 0:
            continue
        if len(fs) == 1 and fs[0].op == "div" and fs[0].a[1] is f and d.get(fs[0].a[0], 0) > 0:
            # y - 2^f * (y >> f) >= 0
            y = fs[0].a[0]
            k = min(d[y], -d[m])
            for x, z in ((y, -k), (m, k)):
                d[x] += z
                if not d[x]:
                    del d[x]
        for n in list(d):
            if d.get(n, 0) <= 0 or d.get(m, 0) >= 0:
                continue
            e, gs = splitm(n)
            if e is None or isc(e) or sorted(gs, key=id) != sorted(fs, key=id):
                continue
            df = sub(e, f)
            if bounds(df)[0] >= 0 or any(
                    bounds(sub(df, sub(toZ(b), toZ(s))))[0] >= 0 for s, b in LE_PAIRS):
                k = min(d[n], -d[m])
                for x, y in ((n, -k), (m, k)):
                    d[x] += y
                    if not d[x]:
                        del d[x]
    lo = c
    for m, k in d.items():
        b = bounds(m)
        lo += k * (b[0] if k > 0 else b[1])
    return lo >= 0


# ---------------------------------------------------------------------------
def v2(n):
    return (n & -n).bit_length() - 1


def quot(coef, m, e, w):
    """coef*m / 2^e if provably integral (coef*m a multiple of 2^e); else None.
    Returns term of width w."""
    co = cen(coef, w)
    k = v2(co)
    ex, fs = splitm(m)
    E = sub(add(C(k, 0), ex) if ex is not None else C(k, 0), e)
    if not geZ(E):
        return None
    c2, mm = mono(E, fs, w)
    c2 *= co >> k
    if mm is None:
        return C(c2, w)
    return fromlin(0, {mm: c2}, w)


def divisible(t, e):
    """split t = 2^e * Q + R ; returns (Q, R)"""
    c, d = tolin(t)
    w = t.w
    Q = C(0, w)
    rd = {}
    for m, k in d.items():
        q = quot(k, m, e, w)
        if q is None:
            rd[m] = k
        else:
            Q = add(Q, q)
    if isc(e) and cv(e) < 300:
        cc = cen(c, w)
        Q = add(Q, C(cc >> cv(e), w))
        c = cc & ((1 << cv(e)) - 1)
    return Q, fromlin(c, rd, w)


def div(x, e):
    """floor(x / 2^e), x unsigned"""
    w = x.w
    if isc(e):
        if cv(e) == 0:
            return x
        if cv(e) < 0:
            return mk("div", w, x, e)
        if isc(x):
            return C(cv(x) >> cv(e), w)
    if x.op == "ite" and (isc(x.a[1]) or isc(x.a[2])):
        return ite(x.a[0], div(x.a[1], e), div(x.a[2], e))
    xb, eb = bounds(x), bounds(e)
    if xb[0] >= 0 and eb[0] >= 0 and xb[1] < (1 << min(eb[0], 400)):
        return C(0, w)
    if x.op == "div":
        return div(x.a[0], add(x.a[1], e))
    if x.op == "zx" and w:
        return zext(div(x.a[0], e), w)
    if x.op == "xor" and len(x.a[0]) == 2:
        pass
    if x.op == "mul" and x.a[0] is not None and len(x.a[1]) == 1:
        # align_down(y, a) >> e = y >> e for e >= a
        y = x.a[1][0]
        zx = y.op == "zx" and y.a[0].op == "div"
        y = y.a[0] if zx else y
        if y.op == "div" and y.a[1] is x.a[0] and geZ(sub(e, x.a[0])):
            return zext(div(y.a[0], e), w) if zx else div(y.a[0], e)
    if x.op in ("lin", "mul"):
        if w == 0:
            nw = zb(x)[0] >= 0
        else:
            lo, hi = zb(x) if x.op == "lin" else _mulz(x)
            nw = lo >= 0 and hi <= M(w)
        if nw:
            Q, R = divisible(x, e)
            if not (isc(Q) and cv(Q) == 0):
                rlo = zb(R)[0]
                if isc(R) and cen(cv(R), w) == -1 and eb[0] >= 0:
                    return addk(Q, -1)
                if rlo >= 0:
                    if isc(R) and cv(R) == 0:
                        return Q
                    if geZ(sub(addk(p2(e, 0), -1), toZ(R))):
                        return Q
                    return add(Q, div(R, e))
            if geZ(sub(addk(p2(e, 0), -1), toZ(x))):
                return C(0, w)
    elif geZ(sub(addk(p2(e, 0), -1), toZ(x) if x.op != "div" else x)) if w else False:
        return C(0, w)
    if x.op == "c" and cv(x) != 0 and False:
        pass
    return mk("div", w, x, e)


def mod(x, e):
    """x mod 2^e"""
    w = x.w
    if isc(e):
        if cv(e) <= 0:
            return C(0, w)
        if w and cv(e) >= w:
            return x
        if isc(x):
            return C(cv(x) & ((1 << cv(e)) - 1), w)
    if x.op == "ite" and (isc(x.a[1]) or isc(x.a[2])):
        return ite(x.a[0], mod(x.a[1], e), mod(x.a[2], e))
    xb, eb = bounds(x), bounds(e)
    if xb[0] >= 0 and eb[0] >= 0 and xb[1] < (1 << min(eb[0], 400)):
        return x
    if x.op == "zx" and w:
        return zext(mod(x.a[0], e), w)
    if x.op == "mod":
        e1 = x.a[1]
        if geZ(sub(e, e1)):
            return x
        if geZ(sub(e1, e)):
            return mod(x.a[0], e)
    c, d = tolin(x)
    if d:
        rd = {}
        ch = False
        for m, k in d.items():
            if quot(k, m, e, w) is not None:
                ch = True
            elif m.op == "mod" and geZ(sub(m.a[1], e)):
                # mod(y, e1) == y (mod 2^e) when e <= e1
                cy, dy = tolin(m.a[0])
                c += k * cy
                for y, v in dy.items():
                    rd[y] = rd.get(y, 0) + k * v
                ch = True
            else:
                rd[m] = rd.get(m, 0) + k
        if isc(e):
            c &= (1 << cv(e)) - 1
        elif not rd and c != 0 and cen(c, w) == -1:
            return addk(p2(e, w), -1)
        if ch or rd != d:
            return mod(fromlin(c, rd, w), e)
    if cen(xc(x), w) == -1 and isc(x):
        return addk(p2(e, w), -1)
    if zb(x)[0] >= 0 and x.op == "lin" and geZ(sub(addk(p2(e, 0), -1), toZ(x))):
        return x
    if isc(x):
        # small constant below 2^lo(e) handled above
        pass
    return mk("mod", w, x, e)


def xc(x):
    return x.a[0] if x.op == "c" else 0


def align_down(x, e):
    return mul(p2(e, x.w), div(x, e))


def shl(a, e):
    return mul(a, p2(e, a.w))


# ---------------------------------------------------------------------------
def zext(t, w):
    if t.w == w:
        return t
    if isc(t):
        return C(cv(t), w)
    if t.op == "zx":
        return zext(t.a[0], w)
    if t.op == "lin":
        lo, hi = zbounds_lin(t)
        if lo >= 0 and hi <= M(t.w):
            c, ms = t.a
            r = C(cen(c, t.w), w)
            for m, k in ms:
                r = add(r, scale(zext(m, w), cen(k, t.w)))
            return r
    elif t.op == "mul":
        lo, hi = _mulz(t)
        if lo >= 0 and hi <= M(t.w):
            e, fs = t.a
            r = C(1, w) if e is None else p2(e, w)
            for f in fs:
                r = mul(r, zext(f, w))
            return r
    elif t.op == "ite":
        return ite(t.a[0], zext(t.a[1], w), zext(t.a[2], w))
    elif t.op == "byte" and t.a[1] == 0 and bounds(t.a[0])[1] <= 255:
        x = t.a[0]
        return trunc(x, w) if x.w > w else zext(x, w)
    elif t.op == "mod" and t.w:
        return mk("zx", w, t)
    return mk("zx", w, t)


def sext(t, w):
    if isc(t):
        return C(cen(cv(t), t.w), w)
    if bounds(t)[1] < 1 << (t.w - 1):
        return zext(t, w)
    if t.op == "ite":
        return ite(t.a[0], sext(t.a[1], w), sext(t.a[2], w))
    if t.op == "lin":
        lo, hi = zbounds_lin(t)
        if lo >= -(1 << (t.w - 1)) and hi < (1 << (t.w - 1)):
            c, ms = t.a
            r = C(cen(c, t.w), w)
            for m, k in ms:
                r = add(r, scale(zext(m, w), cen(k, t.w)))
            return r
    if t.w == 1:
        return ite(t, C(-1, w), C(0, w))
    return mk("sx", w, t)


def trunc(t, w):
    if t.w == w:
        return t
    if isc(t):
        return C(cv(t), w)
    if w == 1:
        return bnot(eq0(band2(t, C(1, t.w))))
    if t.op == "ite":
        return ite(t.a[0], trunc(t.a[1], w), trunc(t.a[2], w))
    if t.op in ("zx", "sx"):
        x = t.a[0]
        if x.w == w:
            return x
        if x.w < w:
            return zext(x, w) if t.op == "zx" else sext(x, w)
        return trunc(x, w)
    if w == 8:
        return byte(t, 0)
    if t.op == "lin":
        c, ms = t.a
        r = C(c, w)
        for m, k in ms:
            r = add(r, scale(trunc(m, w), k))
        return r
    if t.op == "mul":
        e, fs = t.a
        r = C(1, w) if e is None else p2(e, w)
        for f in fs:
            r = mul(r, trunc(f, w))
        return r
    return mk("tr", w, t)


def byte(x, k):
    """k-th byte of x (w8)"""
    if isc(x):
        return C(cv(x) >> (8 * k), 8)
    if x.op == "zx":
        y = x.a[0]
        if 8 * k >= y.w:
            return C(0, 8)
        return byte(y, k)
    if x.w == 8:
        return x if k == 0 else C(0, 8)
    if x.w == 1:
        return zext(x, 8)
    if x.op == "ite":
        return ite(x.a[0], byte(x.a[1], k), byte(x.a[2], k))
    if x.op == "div" and isc(x.a[1]) and cv(x.a[1]) % 8 == 0:
        return byte(x.a[0], k + cv(x.a[1]) // 8)
    if x.op == "mod" and isc(x.a[1]) and cv(x.a[1]) >= 8 * (k + 1):
        return byte(x.a[0], k)
    if bounds(x)[1] < (1 << (8 * k)):
        return C(0, 8)
    if x.op == "lin":
        c, ms = x.a
        if c == 0 and len(ms) >= 2:
            # byte selection out of disjoint zx(byte) sums
            hit = None
            ok = True
            for m, cf in ms:
                if m.op == "zx" and m.a[0].w == 8 and cf & (cf - 1) == 0 and v2(cf) % 8 == 0:
                    if v2(cf) == 8 * k:
                        hit = m.a[0]
                else:
                    ok = False
            if ok:
                return hit if hit is not None else C(0, 8)
    if x.op == "zx":
        return byte(x.a[0], k)
    return mk("byte", 8, x, k)


# ---------------------------------------------------------------------------
def is_lowmask_sym(b):
    """b == 2^e - 1 with symbolic e -> e"""
    if b.op == "lin" and cen(b.a[0], b.w) == -1 and len(b.a[1]) == 1:
        m, k = b.a[1][0]
        return _pow2(m, k)
    return None


def _pow2(m, k):
    k &= M(m.w) if m.w else k
    if k <= 0 or k & (k - 1):
        return None
    if m.op == "mul" and m.a[1] == ():
        return addk(m.a[0], v2(k))
    return None


def is_pow2_sym(b):
    if b.op == "mul" and b.a[1] == ():
        return b.a[0]
    if b.op == "lin" and b.a[0] == 0 and len(b.a[1]) == 1:
        return _pow2(*b.a[1][0])
    return None


def maskt(x, m, c):
    """(x & m) | c on 8-bit x"""
    m &= 0xff & ~c
    if x.op == "bits":
        return bitsv(tuple(TRUE if c >> k & 1 else b if m >> k & 1 else FALSE for k, b in enumerate(x.a[0])))
    if isc(x):
        return C((cv(x) & m) | c, 8)
    if x.op == "mask":
        y, m1, c1 = x.a
        return maskt(y, m1 & m, (c1 & m) | c)
    if x.op == "ite":
        return ite(x.a[0], maskt(x.a[1], m, c), maskt(x.a[2], m, c))
    if m == 0:
        return C(c, 8)
    if m == 0xff and c == 0:
        return x
    return mk("mask", 8, x, m, c)


def bitsv(bs):
    """8-bit word given bit by bit"""
    if all(isc(b) for b in bs):
        return C(sum(cv(b) << k for k, b in enumerate(bs)), 8)
    x = None
    m = c = 0
    for k, b in enumerate(bs):
        if isc(b):
            c |= cv(b) << k
            continue
        if b.op == "fb" and b.a[1] == k and (x is None or x is b.a[0]):
            x = b.a[0]
            m |= 1 << k
        else:
            return mk("bits", 8, tuple(bs))
    return maskt(x, m, c)


def maybits(t):
    if isc(t):
        return cv(t)
    if t.op == "zx":
        return maybits(t.a[0])
    if t.op == "mask":
        return t.a[1] | t.a[2]
    if t.op == "lin" and t.w:
        acc = t.a[0]
        for m, k in t.a[1]:
            if k & (k - 1):
                return None
            b = maybits(m)
            if b is None:
                return None
            b <<= v2(k)
            if b > M(t.w) or b & acc:
                return None
            acc |= b
        return acc
    hi = bounds(t)[1]
    return (1 << hi.bit_length()) - 1


def band2(a, b):
    w = a.w
    if w == 1:
        return band(a, b)
    if isc(a):
        a, b = b, a
    if isc(a) and isc(b):
        return C(cv(a) & cv(b), w)
    if a is b:
        return a
    if isc(b):
        m = cv(b)
        if m == 0:
            return b
        if m == M(w):
            return a
        if a.op == "zx" and a.a[0].w == 8:
            return zext(maskt(a.a[0], m & 0xff, 0), w)
        if a.op == "zx" and a.a[0].w < w:
            return zext(band2(a.a[0], C(m, a.a[0].w)), w)
        if w == 8:
            return maskt(a, m, 0)
        if a.op == "ite":
            return ite(a.a[0], band2(a.a[1], b), band2(a.a[2], b))
        mb = maybits(a)
        if mb is not None and mb & m == mb:
            return a
        if mb is not None and mb & m == 0:
            return C(0, w)
        if m & (m + 1) == 0:
            return mod(a, C(m.bit_length(), 0))
        inv = M(w) & ~m
        if inv & (inv + 1) == 0:
            return align_down(a, C(inv.bit_length(), 0))
        if m & (m - 1) == 0:
            k = C(v2(m), 0)
            return mul(p2(k, w), mod(div(a, k), C(1, 0)))
        return mk("and", w, tuple(sorted((a, b), key=lambda x: x.id)))
    for x, y in ((a, b), (b, a)):
        e = is_lowmask_sym(y)
        if e is not None:
            return mod(x, e)
        e = is_pow2_sym(neg(y))
        if e is not None:
            return align_down(x, e)
        e = is_pow2_sym(y)
        if e is not None:
            return mul(p2(e, w), mod(div(x, e), C(1, 0)))
    if a.op == "ite" and (isc(a.a[1]) and isc(a.a[2])):
        return ite(a.a[0], band2(a.a[1], b), band2(a.a[2], b))
    if b.op == "ite" and (isc(b.a[1]) and isc(b.a[2])):
        return ite(b.a[0], band2(b.a[1], a), band2(b.a[2], a))
    xs = []
    for t in (a, b):
        xs.extend(t.a[0] if t.op == "and" else (t,))
    return mk("and", w, tuple(sorted(set(xs), key=lambda x: x.id)))


def bor2(a, b):
    w = a.w
    if w == 1:
        return bor(a, b)
    if isc(a):
        a, b = b, a
    if isc(a) and isc(b):
        return C(cv(a) | cv(b), w)
    if a is b:
        return a
    if isc(b):
        m = cv(b)
        if m == 0:
            return a
        if m == M(w):
            return b
        if a.op == "zx" and a.a[0].w == 8 and m <= 0xff:
            return zext(maskt(a.a[0], 0xff, m), w)
        if w == 8:
            return maskt(a, 0xff, m)
        if a.op == "ite":
            return ite(a.a[0], bor2(a.a[1], b), bor2(a.a[2], b))
        if m & (m + 1) == 0:
            return add(align_down(a, C(m.bit_length(), 0)), b)
    ma, mb = maybits(a), maybits(b)
    if ma is not None and mb is not None and ma & mb == 0:
        return add(a, b)
    for x, y in ((a, b), (b, a)):
        e = is_lowmask_sym(y)
        if e is not None:
            return add(align_down(x, e), y)
        e = is_pow2_sym(y)
        # x | y where all of x is a multiple of 2^(e') and y < 2^e'
    for x, y in ((a, b), (b, a)):
        for m, k in tolin(x)[1].items():
            ex, fs = splitm(m)
            if ex is None:
                continue
            ee = addk(ex, v2(k))
            Q, R = divisible(x, ee)
            if isc(R) and cv(R) == 0 and geZ(sub(addk(p2(ee, 0), -1), toZ(y))):
                return add(x, y)
    xs = []
    for t in (a, b):
        xs.extend(t.a[0] if t.op == "or" else (t,))
    return mk("or", w, tuple(sorted(set(xs), key=lambda x: x.id)))


def bxor2(a, b):
    w = a.w
    if w == 1:
        if isc(a):
            a, b = b, a
        if isc(b):
            return bnot(a) if cv(b) else a
        if a is b:
            return FALSE
        return bite(a, bnot(b), b)
    if isc(a) and isc(b):
        return C(cv(a) ^ cv(b), w)
    if a is b:
        return C(0, w)
    if isc(a):
        a, b = b, a
    if isc(b):
        if cv(b) == 0:
            return a
        if cv(b) == M(w):
            return sub(b, a)
    if a.op == "ite" and isc(a.a[1]) and isc(a.a[2]) and isc(b):
        return ite(a.a[0], bxor2(a.a[1], b), bxor2(a.a[2], b))
    if a.op == "div" and b.op == "div" and a.a[1] is b.a[1]:
        return div(bxor2(a.a[0], b.a[0]), a.a[1])
    cnt = {}
    k = 0
    for t in (a, b):
        for x in (t.a[0] if t.op == "xor" else (t,)):
            if isc(x):
                k ^= cv(x)
            else:
                cnt[x] = cnt.get(x, 0) ^ 1
    xs = [x for x, v in cnt.items() if v]
    if k:
        xs.append(C(k, w))
    if not xs:
        return C(0, w)
    if len(xs) == 1:
        return xs[0]
    return mk("xor", w, tuple(sorted(xs, key=lambda x: x.id)))


def udiv(a, b):
    if isc(b) and cv(b) and cv(b) & (cv(b) - 1) == 0:
        return div(a, C(v2(cv(b)), 0))
    if isc(a) and isc(b) and cv(b):
        return C(cv(a) // cv(b), a.w)
    e = is_pow2_sym(b)
    if e is not None:
        return div(a, e)
    return mk("udiv", a.w, a, b)


def urem(a, b):
    if isc(b) and cv(b) and cv(b) & (cv(b) - 1) == 0:
        return mod(a, C(v2(cv(b)), 0))
    if isc(a) and isc(b) and cv(b):
        return C(cv(a) % cv(b), a.w)
    e = is_pow2_sym(b)
    if e is not None:
        return mod(a, e)
    return mk("urem", a.w, a, b)


def sdiv(a, b):
    if bounds(a)[1] < 1 << (a.w - 1) and bounds(b)[1] < 1 << (b.w - 1):
        return udiv(a, b)
    return mk("sdiv", a.w, a, b)


def srem(a, b):
    if bounds(a)[1] < 1 << (a.w - 1) and bounds(b)[1] < 1 << (b.w - 1):
        return urem(a, b)
    if isc(b):
        # divisibility test only is sign independent; keep opaque
        pass
    return mk("srem", a.w, a, b)


def ashr(a, e):
    if bounds(a)[1] < 1 << (a.w - 1):
        return div(a, e)
    if isc(a) and isc(e):
        return C(cen(cv(a), a.w) >> cv(e), a.w)
    return mk("ashr", a.w, a, e)


def asn(a, e):
    """arithmetic shift of a value known (from the state) to be non-negative"""
    r = ashr(a, e)
    return mk("asn", a.w, a, e) if r.op == "ashr" else r


# ---------------------------------------------------------------------------
# booleans
def bnot(c):
    if isc(c):
        return FALSE if cv(c) else TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "ge0":
        pass
    return mk("not", 1, c)


def band(*xs):
    out = []
    for x in xs:
        if isc(x):
            if not cv(x):
                return FALSE
            continue
        if x.op == "band":
            out.extend(x.a[0])
        else:
            out.append(x)
    out = sorted(set(out), key=lambda x: x.id)
    st = set(out)
    for x in out:
        if bnot(x) in st:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("band", 1, tuple(out))


def bor(*xs):
    return bnot(band(*[bnot(x) for x in xs]))


def bite(c, a, b):
    if isc(c):
        return a if cv(c) else b
    if c.op == "not":
        return bite(c.a[0], b, a)
    if a is b:
        return a
    if isc(a):
        return bor(c, b) if cv(a) else band(bnot(c), b)
    if isc(b):
        return bor(bnot(c), a) if cv(b) else band(c, a)
    return mk("ite", 1, c, a, b)


def iff(a, b):
    """equivalence of two width-1 terms"""
    if a is b:
        return TRUE
    return bite(a, b, bnot(b))


def implies(a, b):
    return bor(bnot(a), b)


def ite(c, a, b):
    assert a.w == b.w, (a, b)
    if isc(c):
        return a if cv(c) else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a.w == 1:
        return bite(c, a, b)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.op == "ptr" or b.op == "ptr":
        return mk("ite", a.w, c, a, b)
    if not (isc(a) or isc(b)) and a.w != 8:
        d = sub(a, b)
        if isc(d):
            return add(b, mk("ite", a.w, c, d, C(0, a.w)))
    return mk("ite", a.w, c, a, b)


def ite_atoms(t):
    if t.op == "ite":
        return [t]
    if t.op == "lin":
        return [m for m, k in t.a[1] if m.op == "ite"]
    if t.op == "zx" and t.a[0].op == "ite":
        return [t.a[0]]
    return []


def _lift(t, f):
    """f(t) with an ite pulled out when this decides at least one arm"""
    its = ite_atoms(t)
    if len(its) == 1 and t.op in ("ite", "lin"):
        i = its[0]
        c = i.a[0]
        ra = f(replace_atom(t, i, i.a[1]))
        rb = f(replace_atom(t, i, i.a[2]))
        if isc(ra) or isc(rb):
            return bite(c, ra, rb)
    return None


def replace_atom(t, i, v):
    if t is i:
        return v
    c, ms = t.a
    r = C(c, t.w)
    for m, k in ms:
        r = add(r, scale(v if m is i else m, k))
    return r


def bitat(m):
    """(x, e) when the integer m is bit e of the machine word x"""
    while m.op == "zx":
        m = m.a[0]
    if m.op != "mod" or not isc(m.a[1]) or cv(m.a[1]) != 1:
        return None
    q = m.a[0]
    while q.op == "zx":
        q = q.a[0]
    e = C(0, 0)
    if q.op == "div":
        q, e = q.a
        while q.op == "zx":
            q = q.a[0]
    return (q, e) if q.w in (16, 32, 64) else None


def bitin(m):
    """(x, e) when m is x with everything but bit e cleared"""
    while m.op == "zx":
        m = m.a[0]
    if m.op == "mul" and m.a[0] is not None and len(m.a[1]) == 1:
        r = bitat(m.a[1][0])
        if r and r[1] is m.a[0] and r[0].w == m.w:
            return r
    return None


def eq0(d):
    w = d.w
    if isc(d):
        return TRUE if cv(d) == 0 else FALSE
    if d.op == "zx" and w:
        return eq0(d.a[0])
    if d.op == "zx" and w == 0 and d.a[0].w == 8:
        return eq0(d.a[0])
    if w == 1:
        return bnot(d)
    if d.op == "mask":
        x, m, c = d.a
        if c:
            return FALSE
        return band(*[bnot(mk("fb", 1, x, k)) for k in range(8) if m >> k & 1])
    if d.op == "mul":
        e, fs = d.a
        lo, hi = _mulz(d)
        if w == 0 or (lo >= 0 and hi <= M(w)):
            return bor(*[eq0(f) for f in fs]) if fs else FALSE
        if len(fs) == 1 and e is not None:
            # 2^e * bit e of x: both factors vanish together when e is out of range
            f = fs[0]
            while f.op == "zx":
                f = f.a[0]
            if f.op == "mod" and isc(f.a[1]) and cv(f.a[1]) == 1:
                g = f.a[0]
                while g.op == "zx":
                    g = g.a[0]
                if g.op == "div" and g.a[1] is e and 0 <= bounds(g.a[0])[0] and bounds(g.a[0])[1] <= M(w):
                    return eq0(f)
        return mk("eq0", 1, d)
    r = _lift(d, eq0)
    if r is not None:
        return r
    if d.op == "bits":
        return band(*[bnot(b) for b in d.a[0]])
    if w:
        if bounds(d)[0] > 0:
            return FALSE
        lo, hi = zb(d)
        if -(1 << w) < lo and hi < (1 << w) and d.op in ("lin", "div", "mod"):
            if d.op == "lin":
                c, ms = d.a
                r = C(cen(c, w), 0)
                for m, k in ms:
                    r = add(r, scale(toZ(m), cen(k, w)))
                return eq0(r)
            z = toZ(d)
            if z.w == 0 and not (z.op == "zx" and z.a[0] is d):
                return eq0(z)
        if d.op == "xor" and len(d.a[0]) == 2:
            return eq0(sub(d.a[0][0], d.a[0][1]))
        if d.op == "lin":
            # byte equality etc.
            c, ms = d.a
            k0 = cen(ms[0][1], w)
            if k0 < 0:
                d = neg(d)
        return mk("eq0", 1, d)
    # integers
    lo, hi = bounds(d)
    if lo > 0 or hi < 0:
        return FALSE
    if d.op == "mod" and isc(d.a[0]) and cv(d.a[0]) > 0:
        return ge0(sub(C(v2(cv(d.a[0])), 0), toZ(d.a[1])))
    if geZ(addk(d, -1)) or geZ(addk(neg(d), -1)):
        return FALSE
    if d.op == "mul":
        return bor(*[eq0(f) for f in d.a[1]]) if d.a[1] else FALSE
    if d.op == "div" and d.a[0].op == "zx" and d.a[0].a[0].op == "xor" and len(d.a[0].a[0].a[0]) == 2:
        x = d.a[0].a[0]
        a, b = x.a[0]
        return eq0(sub(toZ(div(a, d.a[1])), toZ(div(b, d.a[1]))))
    if d.op == "zx" and d.a[0].op == "xor" and len(d.a[0].a[0]) == 2:
        a, b = d.a[0].a[0]
        return eq0(sub(toZ(a), toZ(b)))
    if d.op == "lin":
        c, ms = d.a
        g = 0
        for m, k in ms:
            g = math.gcd(g, k)
        if g > 1:
            if c % g:
                return FALSE
            d = fromlin(c // g, {m: k // g for m, k in ms}, 0)
            if d.op != "lin":
                return eq0(d)
            c, ms = d.a
        if len(ms) == 1 and ms[0][1] in (1, -1):
            # a masked byte against a constant: its bits
            x = ms[0][0]
            while x.op == "zx":
                x = x.a[0]
            if x.op == "mask":
                k = -c * ms[0][1]
                x, mk_, cc = x.a
                if k < 0 or k > 255 or k & ~(mk_ | cc) or (k & cc) != cc:
                    return FALSE
                return band(*[fbit(x, i) if k >> i & 1 else bnot(fbit(x, i)) for i in range(8) if mk_ >> i & 1])
        if len(ms) == 2 and ms[0][1] == -ms[1][1] and ms[0][1] in (1, -1) and c:
            # x mod 2^e == 2^e - k: the same as (x + k) mod 2^e == 0
            for (u, ku), (v, kv) in ((ms[0], ms[1]), (ms[1], ms[0])):
                y = u
                while y.op == "zx":
                    y = y.a[0]
                if y.op == "mod" and ((v.op == "mul" and v.a[0] is toZ(y.a[1]) and not v.a[1]) or v is p2(toZ(y.a[1]), 0)):
                    k = c * ku
                    if 1 <= k <= 1 << max(0, min(40, bounds(y.a[1])[0])):
                        return eq0(mod(addk(y.a[0], k), y.a[1]))
        if c == 0 and len(ms) == 2 and ms[0][1] == -ms[1][1]:
            # the same bit of two words: one bit of their difference
            u, v = bitat(ms[0][0]) or bitin(ms[0][0]), bitat(ms[1][0]) or bitin(ms[1][0])
            if u and v and u[1] is v[1] and u[0].w == v[0].w and (bitin(ms[0][0]) is None) == (bitin(ms[1][0]) is None):
                return eq0(mod(div(bxor2(u[0], v[0]), u[1]), C(1, 0)))
        # common symbolic power of two
        if c == 0:
            es = [splitm(m)[0] for m, k in ms]
            if all(e is not None for e in es):
                for e in es:
                    Q, R = divisible(d, e)
                    if isc(R) and cv(R) == 0 and Q is not d:
                        return eq0(Q)
        if ms[0][1] < 0:
            d = neg(d)
    return mk("eq0", 1, d)


def eq(a, b):
    if a is b:
        return TRUE
    if a.w == 64 and (a.op == "ptr" or b.op == "ptr"):
        return ptreq(a, b)
    if a.w == 1:
        return iff(a, b)
    return eq0(sub(a, b))


def ne(a, b):
    return bnot(eq(a, b))


def neg_ge(L):
    return addk(neg(L), -1)


def ge0(L):
    """L >= 0 over Z"""
    if isc(L):
        return TRUE if cv(L) >= 0 else FALSE
    if geZ(L):
        return TRUE
    if geZ(neg_ge(L)):
        return FALSE
    r = _lift(L, ge0)
    if r is not None:
        return r
    if L.op == "lin":
        c, ms = L.a
        g = 0
        for m, k in ms:
            g = math.gcd(g, k)
        if g > 1:
            L = fromlin(c // g, {m: k // g for m, k in ms}, 0)
            c, ms = L.a if L.op == "lin" else (0, ())
        e = splitm(ms[0][0])[0] if ms else None
        if e is not None and not isc(e) and len(ms) > 1:
            # a common factor 2^e
            lo = bounds(e)[0]
            if lo >= 0 and -(1 << min(lo, 64)) <= c < (1 << min(lo, 64)):
                qs = [quot(k, m, e, 0) for m, k in ms]
                if None not in qs:
                    Q = C(0 if c >= 0 else -1, 0)
                    for q in qs:
                        Q = add(Q, q)
                    return ge0(Q)
    lead = L.a[1][0][1] if L.op == "lin" else 1
    if lead < 0:
        return bnot(mk("ge0", 1, neg_ge(L)))
    return mk("ge0", 1, L)


def ult(a, b):
    if a is b:
        return FALSE
    if a.op == "ptr" or b.op == "ptr":
        return mk("pult", 1, a, b)
    return ge0(addk(sub(toZ(b), toZ(a)), -1))


def ule(a, b):
    return bnot(ult(b, a))


def slt(a, b):
    if a is b:
        return FALSE
    return ge0(addk(sub(toZs(b), toZs(a)), -1))


# ---------------------------------------------------------------------------
# pointers: ptr(obj, off64) ; obj is a string, maybe-null objects start with '?'
def ptr(obj, off=None):
    if off is None:
        off = C(0, 64)
    return mk("ptr", 64, obj, off)


NULLABLE = set()


def nonnull(obj):
    return mk("nn", 1, obj)


def ptreq(a, b):
    if a.op != "ptr":
        a, b = b, a
    if isc(b) and cv(b) == 0:
        if a.a[0] in NULLABLE:
            if isc(a.a[1]) and cv(a.a[1]) == 0:
                return bnot(nonnull(a.a[0]))
            return FALSE
        return FALSE
    if b.op == "ptr":
        if a.a[0] == b.a[0]:
            return eq0(sub(a.a[1], b.a[1]))
        return mk("peq", 1, *sorted((a, b), key=lambda x: x.id))
    if b.op == "ite":
        return bite(b.a[0], ptreq(a, b.a[1]), ptreq(a, b.a[2]))
    return mk("peq", 1, *sorted((a, b), key=lambda x: x.id))


# ---------------------------------------------------------------------------
def fn(name, w, *args):
    return mk("fn", w, name, tuple(args))


def word(space, off, *keys):
    """32-bit little-endian word stored at byte offset off of the abstract
    content (space, keys)"""
    return mk("word", 32, space, off, tuple(keys))


# ---------------------------------------------------------------------------
def rebuild(t, f):
    """rebuild t with children mapped through f (re-normalising)"""
    op, w, a = t.op, t.w, t.a
    if op in ("c", "s", "one", "nn"):
        return t
    if op == "lin":
        r = C(a[0], w)
        for m, k in a[1]:
            r = add(r, scale(f(m), k))
        return r
    if op == "mul":
        r = C(1, w) if a[0] is None else p2(f(a[0]), w)
        for x in a[1]:
            r = mul(r, f(x))
        return r
    if op == "mulx":
        return mul(f(a[0]), f(a[1]))
    if op == "div":
        return div(f(a[0]), f(a[1]))
    if op == "mod":
        return mod(f(a[0]), f(a[1]))
    if op == "zx":
        y = f(a[0])
        return toZ(y) if w == 0 else zext(y, w)
    if op == "sx0":
        return toZs(f(a[0]))
    if op == "sx":
        return sext(f(a[0]), w)
    if op == "tr":
        return trunc(f(a[0]), w)
    if op == "byte":
        return byte(f(a[0]), a[1])
    if op == "mask":
        return maskt(f(a[0]), a[1], a[2])
    if op == "fb":
        return fbit(f(a[0]), a[1])
    if op in ("and", "or", "xor"):
        g = {"and": band2, "or": bor2, "xor": bxor2}[op]
        r = None
        for x in a[0]:
            y = f(x)
            r = y if r is None else g(r, y)
        return r
    if op in ("udiv", "urem", "sdiv", "srem"):
        return {"udiv": udiv, "urem": urem, "sdiv": sdiv, "srem": srem}[op](f(a[0]), f(a[1]))
    if op == "ashr":
        return ashr(f(a[0]), f(a[1]))
    if op == "asn":
        return asn(f(a[0]), f(a[1]))
    if op == "not":
        return bnot(f(a[0]))
    if op == "band":
        return band(*[f(x) for x in a[0]])
    if op == "bits":
        return bitsv(tuple(f(x) for x in a[0]))
    if op == "ite":
        return ite(f(a[0]), f(a[1]), f(a[2]))
    if op == "eq0":
        return eq0(f(a[0]))
    if op == "ge0":
        return ge0(f(a[0]))
    if op == "ptr":
        return ptr(a[0], f(a[1]))
    if op == "fn":
        return mk("fn", w, a[0], tuple(f(x) for x in a[1]))
    if op == "word":
        return mk("word", w, a[0], f(a[1]), tuple(f(x) for x in a[2]))
    if op == "peq":
        return ptreq(f(a[0]), f(a[1]))
    if op == "pult":
        return mk("pult", 1, f(a[0]), f(a[1]))
    raise AssertionError(op)


def fbit(x, k):
    """bit k of an 8-bit flags term"""
    if isc(x):
        return TRUE if cv(x) >> k & 1 else FALSE
    if x.op == "mask":
        y, m, c = x.a
        if c >> k & 1:
            return TRUE
        if not (m >> k & 1):
            return FALSE
        return fbit(y, k)
    if x.op == "ite":
        return bite(x.a[0], fbit(x.a[1], k), fbit(x.a[2], k))
    if x.op == "bits":
        return x.a[0][k]
    return mk("fb", 1, x, k)


_kl = {}


def kidlist(x):
    r = _kl.get(x)
    if r is None:
        r = _kl[x] = tuple(kids(x))
    return r


def subst(t, mp, memo=None):
    if memo is None:
        memo = {}

    def f(x):
        r = memo.get(x)
        if r is None:
            r = mp.get(x)
            if r is None:
                for y in kidlist(x):
                    if f(y) is not y:
                        r = rebuild(x, f)
                        break
                else:
                    r = x
            memo[x] = r
        return r
    return f(t)


def atoms(t, acc=None, seen=None):
    """all symbols and words below t"""
    if acc is None:
        acc, seen = set(), set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("s", "word", "fn", "nn"):
            acc.add(x)
        for y in kids(x):
            st.append(y)
    return acc


def kids(x):
    for y in x.a:
        if isinstance(y, T):
            yield y
        elif isinstance(y, tuple):
            for z in y:
                if isinstance(z, tuple):
                    z = z[0]
                if isinstance(z, T):
                    yield z


# ---------------------------------------------------------------------------
def show(t, d=0):
    op, w, a = t.op, t.w, t.a
    s = lambda x: show(x, d + 1)
    if d > 14:
        return "..."
    if op == "c":
        v = a[0]
        if w == 1:
            return "true" if v else "false"
        if w >= 32 and v > M(w) - 256:
            return str(cen(v, w))
        return str(v) if v < 4096 else hex(v)
    if op == "s":
        return a[0]
    if op == "lin":
        parts = []
        for m, k in a[1]:
            k = cen(k, w)
            parts.append((("%+d*" % k) if abs(k) != 1 else "+" if k > 0 else "-") + s(m))
        c = cen(a[0], w)
        if c:
            parts.append("%+d" % c)
        r = "".join(parts)
        return "(" + r.lstrip("+") + ")"
    if op == "mul":
        parts = ([] if a[0] is None else ["2^" + s(a[0])]) + [s(x) for x in a[1]]
        return "*".join(parts)
    if op == "div":
        return "(%s>>%s)" % (s(a[0]), s(a[1]))
    if op == "mod":
        return "(%s mod 2^%s)" % (s(a[0]), s(a[1]))
    if op in ("zx", "sx", "sx0", "tr"):
        return s(a[0])
    if op == "byte":
        return "%s.b%d" % (s(a[0]), a[1])
    if op == "mask":
        return "(%s&%#x|%#x)" % (s(a[0]), a[1], a[2])
    if op == "fb":
        return "%s[bit%d]" % (s(a[0]), a[1])
    if op == "not":
        return "!" + s(a[0])
    if op == "band":
        return "(" + " && ".join(s(x) for x in a[0]) + ")"
    if op in ("and", "or", "xor"):
        return "(" + {"and": " & ", "or": " | ", "xor": " ^ "}[op].join(s(x) for x in a[0]) + ")"
    if op == "ite":
        return "(%s ? %s : %s)" % (s(a[0]), s(a[1]), s(a[2]))
    if op == "eq0":
        return "%s==0" % s(a[0])
    if op == "ge0":
        return "%s>=0" % s(a[0])
    if op == "ptr":
        return "&%s+%s" % (a[0], s(a[1])) if not (isc(a[1]) and cv(a[1]) == 0) else "&" + a[0]
    if op == "nn":
        return "%s!=NULL" % a[0]
    if op == "word":
        return "%s(%s)@%s" % (a[0], ",".join(s(x) for x in a[2]), s(a[1]))
    if op == "fn":
        return "%s(%s)" % (a[0], ",".join(s(x) for x in a[1]))
    return "%s(%s)" % (op, ",".join(s(x) if isinstance(x, T) else repr(x) for x in a))


# ---------------------------------------------------------------------------
class EvalError(Exception):
    pass


def evaluate(t, env, memo):
    """value of t under env (dict T->int for s/word/fn/nn atoms, or callable
    default via env['?'])"""
    r = memo.get(t)
    if r is not None:
        return r
    op, w, a = t.op, t.w, t.a
    ev = lambda x: evaluate(x, env, memo)
    if op == "c":
        r = a[0]
    elif op in ("s", "nn"):
        r = env.get(t)
        if r is None:
            r = env["?"](t, None)
            env[t] = r
    elif op == "word":
        args = (ev(a[1]),) + tuple(ev(x) for x in a[2])
        r = env["?"](t, args)
    elif op == "fn":
        r = env["?"](t, tuple(ev(x) for x in a[1]))
    elif op == "lin":
        r = a[0]
        for m, k in a[1]:
            r += k * ev(m)
    elif op == "mul":
        r = 1
        if a[0] is not None:
            e = ev(a[0])
            if e < 0 or e > 400:
                raise EvalError
            r = 1 << e
        for x in a[1]:
            r *= ev(x)
    elif op == "mulx":
        r = ev(a[0]) * ev(a[1])
    elif op == "div":
        e = ev(a[1])
        if e < 0:
            raise EvalError
        r = ev(a[0]) >> min(e, 400)
    elif op == "mod":
        e = ev(a[1])
        if e < 0:
            raise EvalError
        r = ev(a[0]) & ((1 << min(e, 400)) - 1)
    elif op == "zx":
        r = ev(a[0])
    elif op == "tr":
        r = ev(a[0])
    elif op == "sx":
        r = cen(ev(a[0]), a[0].w)
    elif op == "sx0":
        r = cen(ev(a[0]), a[0].w)
    elif op == "byte":
        r = ev(a[0]) >> (8 * a[1])
    elif op == "mask":
        r = (ev(a[0]) & a[1]) | a[2]
    elif op == "fb":
        r = ev(a[0]) >> a[1] & 1
    elif op == "and":
        r = -1
        for x in a[0]:
            r &= ev(x)
    elif op == "or":
        r = 0
        for x in a[0]:
            r |= ev(x)
    elif op == "xor":
        r = 0
        for x in a[0]:
            r ^= ev(x)
    elif op == "udiv":
        y = ev(a[1])
        if not y:
            raise EvalError
        r = ev(a[0]) // y
    elif op == "urem":
        y = ev(a[1])
        if not y:
            raise EvalError
        r = ev(a[0]) % y
    elif op in ("sdiv", "srem"):
        x, y = cen(ev(a[0]), w), cen(ev(a[1]), w)
        if not y:
            raise EvalError
        q = abs(x) // abs(y)
        if (x < 0) != (y < 0):
            q = -q
        r = q if op == "sdiv" else x - q * y
    elif op in ("ashr", "asn"):
        r = cen(ev(a[0]), w) >> min(ev(a[1]), 400)
    elif op == "not":
        r = 1 - ev(a[0])
    elif op == "band":
        r = 1
        for x in a[0]:
            if not ev(x):
                r = 0
                break
    elif op == "ite":
        r = ev(a[1]) if ev(a[0]) else ev(a[2])
    elif op == "eq0":
        r = int(ev(a[0]) == 0)
    elif op == "ge0":
        r = int(ev(a[0]) >= 0)
    elif op == "one":
        r = 1
    elif op == "bits":
        r = sum(ev(x) << k for k, x in enumerate(a[0]))
    elif op == "ptr":
        r = (zlib_h(a[0]) << 40) + ev(a[1])
    elif op == "peq":
        r = int(ev(a[0]) == ev(a[1]))
    else:
        raise EvalError(op)
    if w:
        r &= M(w)
    memo[t] = r
    return r


def zlib_h(s):
    import zlib
    return zlib.crc32(s.encode()) & 0xffff
