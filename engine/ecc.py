"""Rules for the error-correction code: the value each routine computes, as
polynomials over GF(2) in the input bits, against the definition of the code.

`bits.Machine` gives the values; equality of canonical polynomials is decided
exactly, so a difference is a difference on some input.  For fixed lengths the
content is arbitrary; the step from one length to the next is checked as an
induction on the loop (any length)."""
import ir
import bits
from bits import (Machine, Ptr, K, V, P0, P1, px, pm, pnot, newsym, istop, basis, Top, Runaway, subst, evalp, bitvars,
                  pvars, symv)
from oblig import Rec, PROVED, VIOLATED, UNDECIDED

LENS = (0, 1, 2, 3, 5, 8, 257)
LENS_T = tuple(range(0, 20)) + (31, 32, 63, 64, 100, 127, 128, 129, 255, 256, 257, 300, 511, 512)


class Rep:
    def __init__(s, want, thorough=False):
        s.want = want
        s.out = []
        s.funcs = set()
        s.notes = []
        s.steps = 0
        s.calls = 0
        s.loops = 0
        s.thorough = thorough

    def rec(s, props, rule, status, func, loc, detail=""):
        for p in (props,) if isinstance(props, str) else props:
            if s.want is None or p in s.want:
                s.out.append(Rec(p, rule, loc, func, status, detail))

    def note(s, M):
        s.funcs |= M.funcs
        s.steps += M.ninstr
        s.loops += M.unrolled
        s.calls += len(M.calls) + len(M.funcs)

    def pack(s):
        return dict(out=[o.tup() for o in s.out], notes=s.notes, functions=sorted(s.funcs), callsites=s.calls,
                    steps=s.steps, loops=s.loops)


def where(m, fn):
    f = m.funcs.get(fn)
    if f is None or not f.order:
        raise ir.AnalysisBroken("no function " + fn)
    for b in f.order:
        for i in f.blocks[b].ins:
            if i.dbg is not None and i.op != "alloca":
                l = m.loc(i.dbg)
                if l and l[1]:
                    return l
    return (fn, 0)


def same(M, got, want):
    """status, detail"""
    bad = None
    for i, (a, b) in enumerate(zip(got, want)):
        if a != b:
            bad = i
            break
    if bad is None:
        return PROVED, ""
    vs = 0
    for p in list(got) + list(want):
        vs |= p[0]
        for x in p[1]:
            vs |= x
    if any(vs >> t & 1 for t in M.sp.tops):
        return UNDECIDED, "bit %d depends on a value the analysis does not track" % bad
    if any(vs >> t & 1 for t in M.sp.preds):
        # distinct predicates may still be related
        d = px(got[bad], want[bad])
        if any(d[0] >> t & 1 for t in M.sp.preds) or any(x >> t & 1 for x in d[1] for t in M.sp.preds):
            return UNDECIDED, "bit %d depends on a condition that could not be resolved" % bad
    d = px(got[bad], want[bad])
    m = min(pvars(d), key=lambda x: bin(x).count("1"))
    names = [M.sp.names[v] for v in range(1, m.bit_length()) if m >> v & 1]
    return VIOLATED, "bit %d is wrong when %s" % (bad, " and ".join(names) + " is set, the rest clear" if names else "all input is zero")


def run(r, props, rule, fn, loc, f):
    """run one case; analysis limits are reported as undecided"""
    try:
        return f()
    except Runaway as e:
        r.rec(props, rule, VIOLATED, fn, loc, str(e))
    except Top as e:
        r.rec(props, rule, UNDECIDED, fn, loc, "not expressible: %s" % e)
    except RecursionError:
        r.rec(props, rule, UNDECIDED, fn, loc, "nesting too deep")
    return None


def lastvals(M, base):
    """value of every byte stored to an object, by constant offset"""
    out = {}
    for e in M.effects:
        if e.base != base:
            continue
        c = e.off.const()
        if c is None:
            raise Top("store at unknown offset")
        k = ("%s" % base, e.off.key(), 8, M.ver.get(base, 0))
        out[c] = M.known.get((base, e.off.key(), 8, M.ver.get(base, 0)))
        if out[c] is None:
            raise Top("stored value")
    return out


def byte(M, base, i):
    """input byte as polynomials"""
    v = symv(M.sp.sym("%s[%s]" % (base, i), 8, ("ld", base, ("c", i), 8, 0)))
    return [v.bit(j) for j in range(8)]


# --------------------------------------------------------------- access bounds
def bounds(r, M, rule, fn, sizes, ro, tag):
    """C33: every access within its object, no write to read-only objects"""
    bad = None
    for base, off, w, _, cond in M.loads:
        n = objsize(M, base, sizes)
        if n is None:
            continue
        b = outside(M, base, off, w // 8, n, "read")
        if b is not None and not guarded(M, off, cond, n):
            bad = bad or b
    for e in M.effects:
        if e.base in ro or e.base[0] == "@":
            bad = bad or (VIOLATED, e.loc, "%s is written" % e.base)
        n = objsize(M, e.base, sizes)
        if n is not None:
            b = outside(M, e.base, e.off, e.w // 8, n, "write")
            if b is not None and not guarded(M, e.off, e.cond, n):
                bad = bad or (b[0], e.loc, b[2])
    for l, d in M.overrun:
        bad = bad or (VIOLATED, l, d)
    loc = where(M.m, fn)
    if bad is None:
        r.rec("C33", rule, PROVED, fn, loc)
    else:
        r.rec("C33", rule, bad[0], fn, bad[1] or loc, bad[2] + " (%s)" % tag)


def objsize(M, base, sizes):
    if base in sizes:
        return sizes[base]
    if base[0] == "@":
        g = M.m.globs.get(base[1:])
        return M.m.size(g.ty) if g is not None else None
    return None


def offrange(v):
    c = v.const()
    if c is not None:
        return c, c
    if v.lin is not None:
        lo = hi = v.lin[0]
        for y, k in v.lin[1].items():
            if k >> (v.w - 1):
                return 0, (1 << v.w) - 1
            hi += k * ((1 << y.w) - 1)
        return (lo, hi) if hi < 1 << v.w else (0, (1 << v.w) - 1)
    lo = hi = 0
    for i in range(v.w):
        b = v.bit(i)
        if b == P1:
            lo |= 1 << i
        if b != P0:
            hi |= 1 << i
    return lo, hi


def outside(M, base, off, n, size, what):
    lo, hi = offrange(off)
    if hi + n <= size:
        return None
    if lo + n > size:
        return VIOLATED, None, "%s of %s at byte %s, size %d" % (what, base, lo, size)
    # the highest value is attained unless bits are tied together
    if off.lin is None and not istop(M, off) and independent(off) :
        return VIOLATED, None, "%s of %s up to byte %d, size %d" % (what, base, hi, size)
    return UNDECIDED, None, "%s of %s at an offset that could not be bounded" % (what, base)


def independent(v):
    ps = [v.bit(i) for i in range(v.w)]
    ps = [p for p in ps if p not in (P0, P1)]
    if any(p[1] for p in ps):
        return False
    b = basis(ps)
    return b is not None and len(b) == len(ps)


def guarded(M, off, cond, size):
    """is the access only done when its offset is below the size?"""
    if cond == P1:
        return False
    ge = pnot(M.cmp("ult", off, K(size, off.w)))
    return pm(cond, ge) == P0


# ------------------------------------------------------------------- induction
class Unrec(Exception):
    pass


def induct(M, ln, base, out0, refstep, sval, fn):
    """the loop over the input, for any length: output bits (a function of the
    loop's state) start right and each pass applies the reference step.

    out0: reference output before the first byte; refstep(out, byte bits, index bits) -> out;
    sval: the output as computed after the loop"""
    Ls = [L for L in M.sums if any(x[0] == base for x in L.loads)]
    if len(Ls) != 1:
        raise Unrec("%d loops over the input" % len(Ls))
    L = Ls[0]
    if L.exits != 1:
        raise Unrec("loop with several exits")
    if [x for x in M.loads if x[0] == base and x not in L.loads]:
        raise Unrec("input read outside the loop")
    cnt, st = [], []
    for k, (ent, v, bk) in L.phis.items():
        if isinstance(v, Ptr):
            if not isinstance(bk, Ptr) or bk.base != v.base:
                raise Unrec("pointer")
            d = bits.add(bk.off, v.off, True).const()
            if d is None:
                raise Unrec("pointer step")
            cnt.append((next(iter(v.off.lin[1])), 64, ent.off, d))
        else:
            d = bits.add(bk, v, True) if bk.lin is not None else None
            d = d.const() if d is not None else None
            y = next(iter(v.lin[1]))
            if d is not None and d != 0:
                cnt.append((y, v.w, ent, d))
            else:
                st.append((y, v, ent, bk))
    # addresses: pass n reads byte n
    ls = [x for x in L.loads if x[0] == base]
    if len(ls) != 1 or ls[0][2] != 8:
        raise Unrec("%d reads of the input in a pass" % len(ls))
    off = ls[0][1]
    if off.lin is None:
        raise Unrec("address")
    lens = (0, 1, 2, 3, 127, 128, 129, 255, 256, 257, 511, 512, 1016, 32767, 32768, 65535, 65536, 65537)

    def at(n, N, lin, w):
        c, d = lin
        for y, k in d.items():
            c += k * cval(y, n, N)
        return c & ((1 << w) - 1)

    def cval(y, n, N):
        if y is ln:
            return N
        for z, w, ent, d in cnt:
            if z is y:
                return (at(0, N, ent.lin, w) + d * n) & ((1 << w) - 1)
        raise Unrec("symbol %s" % y)
    for _, w, ent, _ in cnt:
        if ent.lin is None:
            raise Unrec("start of a counter")
    for N in lens:
        for n in sorted({0, 1, 2, N // 2, N - 2, N - 1}):
            if 0 <= n < N and at(n, N, off.lin, 64) != n:
                raise Unrec("pass %d reads byte %d" % (n, at(n, N, off.lin, 64)))
    # passes: exactly len

    def holds(p, n, N):
        on = 0
        vs = p[0] & ~1
        for x in p[1]:
            vs |= x
        for t in range(1, vs.bit_length()):
            if not vs >> t & 1:
                continue
            if t in M.sp.preds:
                k = M.sp.preds[t]
                if k[0] in ("eq", "ult", "slt"):
                    f = lambda q: q[1] if q[0] == "c" else at(n, N, (q[1], dict(q[2])), k[3]) if q[0] == "l" else None
                    a, b = f(k[1]), f(k[2])
                    if a is None or b is None:
                        raise Unrec("loop condition")
                    if k[0] == "slt":
                        h = 1 << (k[3] - 1)
                        a, b = a ^ h, b ^ h
                    on |= (1 << t) if (a == b if k[0] == "eq" else a < b) else 0
                    continue
                if k[0] == "eq0":
                    if all(holds(q, n, N) == 0 for q in k[1]):
                        on |= 1 << t
                    continue
                raise Unrec("loop condition")
            for z in [ln] + [c[0] for c in cnt]:
                if z.v and t in z.v:
                    if cval(z, n, N) >> z.v.index(t) & 1:
                        on |= 1 << t
                    break
            else:
                raise Unrec("loop condition")
        return evalp(p, on)
    for N in lens:
        for n in sorted({0, 1, 2, N // 2, N - 2, N - 1, N}):
            if 0 <= n <= N and holds(L.back, n, N) != (1 if n < N else 0):
                raise Unrec("after %d of %d bytes the loop %s" % (n, N, "stops" if n < N else "goes on"))
    # state bits that stay zero
    sb = {}
    for y, v, ent, bk in st:
        for i, b in enumerate(v.bits()):
            sb[b[0]] = (ent.bit(i), bk, i)
    allm = 0
    for v in sb:
        allm |= v
    zero = {v for v, (e, _, _) in sb.items() if e == P0}
    while True:
        zm = 0
        mp = {}
        for v in zero:
            zm |= v
            mp[v] = P0
        drop = {v for v in zero if subst(sb[v][1].bit(sb[v][2]), mp, zm) != P0}
        if not drop:
            break
        zero -= drop
    z = lambda p: subst(p, mp, zm)
    # index bits
    y0 = next(iter(off.lin[1])) if len(off.lin[1]) == 1 and off.lin[0] == 0 and list(off.lin[1].values()) == [1] else None
    idx = None
    if y0 is not None:
        for yy, w, ent, d in cnt:
            if yy is y0 and ent.const() == 0 and d == 1:
                idx = symv(y0).bits()
    F = [z(p) for p in sval]
    bad = 0
    for p in F:
        bad |= p[0]
        for x in p[1]:
            bad |= x
    ok = allm | 1
    E = []
    em = {v: e for v, (e, _, _) in sb.items()}
    E = [subst(p, em, allm) for p in F]
    bm = {v: z(bk.bit(i)) for v, (_, bk, i) in sb.items()}
    a = L.back[0] & ~1
    if a and a & (a - 1) == 0 and not L.back[1]:
        bm = {v: subst(q, {a: P0 if L.back[0] & 1 else P1}, a) for v, q in bm.items()}     # values of passes that go round
    B = [subst(p, bm, allm) for p in F]
    by = ls[0][3]
    ref = refstep(F, list(symv(by).bits()), idx)
    return E == list(out0), [z(p) for p in B] == [z(p) for p in ref], L


def inductive(r, props, rule, fn, loc, f):
    try:
        e, b, L = f()
    except (Unrec, Top) as x:
        r.rec(props, rule, UNDECIDED, fn, loc, "shape of the loop: %s" % x)
        return
    if e and b:
        r.rec(props, rule, PROVED, fn, L.loc)
    else:
        # the state may be represented differently; fixed lengths decide
        r.rec(props, rule, UNDECIDED, fn, L.loc, "the output is not preserved by a pass of the loop")


# ---------------------------------------------------------------------- CRC-32
def crc_table():
    t = []
    for i in range(256):
        c = i
        for _ in range(8):
            c = (c >> 1) ^ (0xedb88320 if c & 1 else 0)
        t.append(c)
    return t


def crc_step(c, b):
    """one byte of the reflected CRC on inverted coefficients"""
    x = [px(c[i], b[i]) for i in range(8)]
    t = crc_table()
    out = []
    for i in range(32):
        p = c[i + 8] if i < 24 else P1
        for k in range(8):
            if t[1 << k] >> i & 1:
                p = px(p, x[k])
        out.append(p)
    return out


def mod(srcs, extra=()):
    return ir.load_lib(list(srcs), extra=list(extra), passes="mem2reg,lcssa")


def run_crc(arg, want):
    r = Rep(want)
    m = mod(["ecc/crc32.c"])
    fn = "crc32_nand"
    loc = where(m, fn)
    for n in LENS:
        def case():
            M = Machine(m)
            c = newsym(M, "carry", 32)
            v = M.call(fn, [Ptr("block", K(0, 64)), K(n, 64), c])
            ref = list(c.bits())
            for i in range(n):
                ref = crc_step(ref, byte(M, "block", i))
            st, d = same(M, v.bits(), ref)
            r.rec("C28", "crc-value", st, fn, loc, d + (" (%d bytes)" % n if d else ""))
            bounds(r, M, "crc-bounds", fn, {"block": n}, ("block",), "%d bytes" % n)
            r.note(M)
        run(r, ("C28", "C33"), "crc-value", fn, loc, case)

    def ind():
        M = Machine(m)
        c = newsym(M, "carry", 32)
        ln = M.sp.sym("len", 64)
        v = M.call(fn, [Ptr("block", K(0, 64)), symv(ln), c])
        r.note(M)
        return induct(M, ln, "block", list(c.bits()), lambda o, b, i: crc_step(o, b), list(v.bits()), fn)
    inductive(r, ("C28", "C33"), "crc-any-length", fn, loc, ind)
    return r.pack()


# --------------------------------------------------------------------- Hamming
def ham_zero():
    return [P1] * 24


def ham_step(o, b, idx):
    """pair k: parities of the positions with bit k set, and clear; inverted"""
    o = list(o)
    allp = P0
    for p in b:
        allp = px(allp, p)
    for k in range(12):
        if k < 3:
            s = P0
            for j in range(8):
                if j >> k & 1:
                    s = px(s, b[j])
        else:
            s = pm(allp, idx[k - 3])
        o[2 * k] = px(o[2 * k], s)
        o[2 * k + 1] = px(o[2 * k + 1], px(allp, s))
    return o


def const_bits(n, w):
    return [P1 if n >> i & 1 else P0 for i in range(w)]


def run_ham(arg, want):
    r = Rep(want)
    m = mod(["ecc/hamming.c"])
    ch, ec = Ptr("chunk", K(0, 64)), Ptr("ecc", K(0, 64))
    lens = (0, 1, 2, 3, 5, 128, 257, 512)
    for fn in ("hamming_generate", "hamming_syndrome"):
        loc = where(m, fn)
        gen = fn == "hamming_generate"
        rule = "hamming-code" if gen else "hamming-syndrome"

        def value(M, v):
            if gen:
                x = lastvals(M, "ecc")
                if sorted(x) != [0, 1, 2]:
                    r.rec("C29", rule, VIOLATED, fn, loc, "code bytes written: %s" % sorted(x))
                    return None
                return [x[i // 8].bit(i % 8) for i in range(24)]
            return list(v.bits())
        for n in lens:
            def case():
                M = Machine(m)
                v = M.call(fn, [ch, K(n, 64), ec])
                ref = ham_zero()
                for i in range(n):
                    ref = ham_step(ref, byte(M, "chunk", i), const_bits(i, 9))
                if not gen:
                    e = sum((byte(M, "ecc", i) for i in range(3)), [])
                    ref = [px(a, b) for a, b in zip(ref, e)] + [P0] * 8
                got = value(M, v)
                if got is not None:
                    st, d = same(M, got, ref)
                    r.rec("C29", rule, st, fn, loc, d + (" (%d bytes)" % n if d else ""))
                bounds(r, M, rule + "-bounds", fn, {"chunk": n, "ecc": 3}, ("chunk",) if gen else ("chunk", "ecc"), "%d bytes" % n)
                r.note(M)
            run(r, ("C29", "C33"), rule, fn, loc, case)

        def ind():
            M = Machine(m)
            ln = M.sp.sym("len", 64)
            v = M.call(fn, [ch, symv(ln), ec])
            got = value(M, v)
            r.note(M)
            if got is None:
                raise Unrec("code bytes")
            e = [P0] * 24 if gen else sum((byte(M, "ecc", i) for i in range(3)), [])

            def step(o, b, i):
                if i is None:
                    raise Unrec("no byte counter")
                return ham_step(o, b, i)
            return induct(M, ln, "chunk", [px(a, b) for a, b in zip(ham_zero(), e)] + [P0] * (len(got) - 24), step, got, fn)
        inductive(r, ("C29", "C33"), rule + "-any-length", fn, loc, ind)

    # repair
    fn = "hamming_repair"
    loc = where(m, fn)

    def repair(syn, n):
        M = syn[0]
        v = M.call(fn, [ch, K(n, 64) if n is not None else newsym(M, "len", 64), V(32, tuple(list(syn[1]) + [P0] * 8))])
        r.note(M)
        return M, v

    def expect(rule, mk, ret, store, tag, n):
        def case():
            M = Machine(m)
            syn = mk(M)
            M, v = repair((M, syn[0]), n)
            st, d = same(M, v.bits(), [P0] * 32 if ret == 0 else [P1] * 32)
            ef = [e for e in M.effects if e.cond != P0]
            if st == PROVED and store is None:
                if ef:
                    und = any(e.cond != P1 and any(M.sp.preds) for e in ef)
                    st, d = (UNDECIDED if und else VIOLATED), "the chunk is changed"
            elif st == PROVED:
                st, d = flip(M, syn[1], n)
            if n is not None:
                bounds(r, M, "hamming-repair-bounds", fn, {"chunk": n}, (), tag)
            r.rec("C29", rule, st, fn, loc, d + (" (%s)" % tag if d else ""))
        run(r, ("C29", "C33"), rule, fn, loc, case)

    def flip(M, p, n):
        """position p (12 polynomials) is inverted iff inside the chunk, and nothing else"""
        if len(M.effects) != 1:
            if not M.effects:
                return VIOLATED, "nothing is corrected"
            return UNDECIDED, "several stores"
        e = M.effects[0]
        off = V(64, tuple(list(p[3:]) + [P0] * 55))
        inside = M.cmp("ult", off, K(n, 64)) if n is not None else None
        st, d = same(M, e.off.bits(), off.bits())
        if st != PROVED:
            return st, "wrong byte: " + d
        if n is not None:
            st, d = same(M, [e.cond], [inside])
            if st != PROVED:
                return st, "condition of the correction: " + d
        else:
            k = [M.sp.preds[t] for t in M.sp.preds if e.cond[0] >> t & 1]
            if e.cond[1] or len(k) != 1 or k[0][0] not in ("ult", "ule", "slt", "sle"):
                return UNDECIDED, "condition of the correction"
            if not (k[0][1] == off.key() or k[0][2] == off.key()):
                return UNDECIDED, "condition of the correction"
        old = M.sp.memo.get(("sym", ("ld", "chunk", e.off.key(), 8, 0)))
        if old is None:
            return UNDECIDED, "old value"
        want = []
        for i in range(8):
            t = symv(old).bit(i)
            f = P1
            for k in range(3):
                f = pm(f, p[k] if i >> k & 1 else pnot(p[k]))
            want.append(px(t, f))
        return same(M, e.val.bits(), want)

    def pos(M, name, fixed):
        return [fixed.get(k, (1 << M.sp.var("%s.%d" % (name, k)), bits.E)) for k in range(12)]

    def pairs(p):
        o = []
        for x in p:
            o += [x, pnot(x)]
        return o
    expect("repair-intact", lambda M: (const_bits(0, 24),), 0, None, "no error", 512)
    for k in range(24):
        expect("repair-code-bit", lambda M: (const_bits(1 << k, 24),), 0, None, "code bit %d" % k, 512)
    for n in (1, 3, 200, 512):
        for f in (P0, P1):
            def mk(M):
                p = pos(M, "p", {0: f})
                return pairs(p), p
            expect("repair-data-bit", mk, 0, True, "data bit, %d bytes" % n, n)
    for f in (P0, P1):
        def mk2(M):
            p = pos(M, "p", {0: f})
            return pairs(p), p
        expect("repair-data-bit", mk2, 0, True, "data bit, any length", None)
    for j in range(12):
        def mk3(M):
            d = pos(M, "d", {k: P0 if k < j else P1 for k in range(j + 1)})
            return (sum(([x, x] for x in d), []),)
        expect("repair-two-data-bits", mk3, -1, None, "positions that differ first in bit %d" % j, 512)
    for k in range(24):
        for f in (P0, P1):
            def mk4(M):
                p = pos(M, "p", {0: f})
                s = pairs(p)
                s[k] = pnot(s[k])
                return (s,)
            expect("repair-data-and-code", mk4, -1, None, "a data bit and code bit %d" % k, 512)
    for a in range(24):
        for b in range(a):
            expect("repair-two-code-bits", lambda M: (const_bits(1 << a | 1 << b, 24),), -1, None, "code bits %d and %d" % (a, b), 512)
    return r.pack()


# ------------------------------------------------------------------------- BCH
GF_POLY = 0x201b
GF_ORD = 8191


def gf_tables():
    ex, lg = [], {}
    a = 1
    for i in range(GF_ORD):
        ex.append(a)
        lg[a] = i
        a <<= 1
        if a >> 13:
            a ^= GF_POLY
    return ex, lg


EXP, LOG = gf_tables()


def gmul(a, b):
    return EXP[(LOG[a] + LOG[b]) % GF_ORD] if a and b else 0


def minimal(i):
    """minimal polynomial of alpha^i, as an integer"""
    roots, k = [], i % GF_ORD
    while k not in roots:
        roots.append(k)
        k = k * 2 % GF_ORD
    p = [1]
    for k in roots:
        q = [0] * (len(p) + 1)
        for d, c in enumerate(p):
            q[d + 1] ^= c
            q[d] ^= gmul(c, EXP[k])
        p = q
    if any(c > 1 for c in p):
        raise ArithmeticError("minimal polynomial")
    return sum(c << d for d, c in enumerate(p))


def pmul(a, b):
    r = 0
    while a:
        if a & 1:
            r ^= b
        a >>= 1
        b <<= 1
    return r


def bch_code(t):
    """(generator, degree, ecc bytes) of the t-error code; the first bit of the chunk stands for x^0"""
    g, have = 1, set()
    for i in range(1, 2 * t, 2):
        p = minimal(i)
        if p not in have:
            have.add(p)
            g = pmul(g, p)
    d = g.bit_length() - 1
    return g, d, (d + 7) // 8


def bch_step(r, b, gen, deg):
    """remainder after one more (inverted) byte, least significant bit first"""
    r = list(r)
    for i in range(8):
        r[i] = px(r[i], pnot(b[i]))
    for _ in range(8):
        f = r[0]
        r = [px(x, f) if gen >> i & 1 else x for i, x in enumerate(r + [P0])][1:]
    return r


def defs(m):
    """the shipped code definitions: name -> field values"""
    fs = m.struct_fields("bch_def")
    if not fs or set(fs) < {"syns", "generator", "degree", "ecc_bytes"}:
        raise ir.AnalysisBroken("struct bch_def")
    out = {}
    M = Machine(m)
    for t in (1, 2, 3, 4):
        nm = "bch_%dbit" % t
        data = M.gbytes(nm)
        if data is None:
            raise ir.AnalysisBroken("no constant " + nm)
        out[nm] = {k: int.from_bytes(data[o:o + n], "little") for k, (o, n) in fs.items()}
    return out


def run_bch(arg, want):
    t = arg
    r = Rep(want)
    m = mod(["ecc/bch.c", "ecc/gf13.c"])
    nm = "bch_%dbit" % t
    d = defs(m)[nm]
    gen, deg, eb = bch_code(t)
    loc = ("bch.c", 0)
    for k, v in (("syns", 2 * t), ("generator", gen), ("degree", deg), ("ecc_bytes", eb)):
        r.rec(("C30", "C43"), "definition-" + k, PROVED if d[k] == v else VIOLATED, nm, loc,
              "" if d[k] == v else "%s is %#x, the code needs %#x" % (k, d[k], v))
    D, ch, ec = Ptr("@" + nm, K(0, 64)), Ptr("chunk", K(0, 64)), Ptr("ecc", K(0, 64))
    fn = "bch_generate"
    loc = where(m, fn)

    def padded(x):
        """stored form: inverted, padding bits set"""
        return [pnot(p) for p in x[:deg]] + [P1] * (8 * eb - deg)

    def value(M):
        x = lastvals(M, "ecc")
        if sorted(x) != list(range(eb)):
            r.rec(("C30", "C43"), "bch-code", VIOLATED, fn, loc, "code bytes written: %s" % sorted(x))
            return None
        return [x[i // 8].bit(i % 8) for i in range(8 * eb)]
    for n in (0, 1, 2, 3, 5, 40, 257):
        def case():
            M = Machine(m)
            M.call(fn, [D, ch, K(n, 64), ec])
            ref = [P0] * deg
            for i in range(n):
                ref = bch_step(ref, byte(M, "chunk", i), gen, deg)
            got = value(M)
            if got is not None:
                st, dd = same(M, got, padded(ref))
                r.rec(("C30", "C43"), "bch-code", st, fn, loc, dd + (" (%s, %d bytes)" % (nm, n) if dd else ""))
            bounds(r, M, "bch-generate-bounds", fn, {"chunk": n, "ecc": eb}, ("chunk",), "%s, %d bytes" % (nm, n))
            r.note(M)
        run(r, ("C30", "C33", "C43"), "bch-code", fn, loc, case)

    def ind():
        M = Machine(m)
        ln = M.sp.sym("len", 64)
        M.call(fn, [D, ch, symv(ln), ec])
        r.note(M)
        got = value(M)
        if got is None:
            raise Unrec("code bytes")
        return induct(M, ln, "chunk", padded([P0] * deg),
                      lambda o, b, i: padded(bch_step([pnot(p) for p in o[:deg]], b, gen, deg)), got, fn)
    inductive(r, ("C30", "C33", "C43"), "bch-code-any-length", fn, loc, ind)

    fn = "bch_verify"
    loc = where(m, fn)
    for n in (0, 1, 2, 3, 5, 40, 257):
        def case2():
            M = Machine(m)
            v = M.call(fn, [D, ch, K(n, 64), ec])
            ref = [P0] * deg
            for i in range(n):
                ref = bch_step(ref, byte(M, "chunk", i), gen, deg)
            st_ = sum((byte(M, "ecc", i) for i in range(eb)), [])
            z = M.zero([pnot(px(a, b)) for a, b in zip(ref, st_)])
            st, dd = same(M, v.bits(), [pnot(z)] * 32)
            if st != PROVED:
                st, dd = verdict(M, v, [pnot(px(a, b)) for a, b in zip(ref, st_)], dd)
            r.rec("C30", "bch-verify", st, fn, loc, dd + (" (%s, %d bytes)" % (nm, n) if dd else ""))
            bounds(r, M, "bch-verify-bounds", fn, {"chunk": n, "ecc": eb}, ("chunk", "ecc"), "%s, %d bytes" % (nm, n))
            r.note(M)
        run(r, ("C30", "C33"), "bch-verify", fn, loc, case2)
    return r.pack()


def verdict(M, v, want, why):
    """the accepted set is the zero set of other polynomials: find a difference"""
    b = v.bits()
    p = b[0]
    if any(x != p for x in b) or p[1] or bin(p[0] & ~1).count("1") != 1 or not p[0] & 1:
        return UNDECIDED, why
    k = M.sp.preds.get((p[0] & ~1).bit_length() - 1)
    if k is None or k[0] != "eq0":
        return UNDECIDED, why
    if any(x[1] for x in list(k[1]) + want) or any(x[0] >> t & 1 for x in k[1] for t in M.sp.tops):
        return UNDECIDED, why
    return VIOLATED, "accepts other pairs of chunk and code than those whose remainders agree"


# --------------------------------------------------------- BCH decoder
def lin_mul(v, c):
    """product of a symbolic element with a constant, linear in its bits"""
    out = [P0] * 16
    for i in range(13):
        y = gmul(1 << i, c)
        b = v.bit(i)
        if b != P0:
            for j in range(13):
                if y >> j & 1:
                    out[j] = px(out[j], b)
    return V(16, tuple(out))


def nonzero(M, v, g):
    """is the element non-zero whenever g holds?"""
    z = M.zero([v.bit(i) for i in range(13)])
    return pm(g, z) == P0


def gf_hooks(M, bad):
    """field operations on non-zero elements, as established by the rules on gf13.h"""
    def mul(args, g, loc):
        a, b = args
        ca, cb = a.const(), b.const()
        for v, c in ((a, ca), (b, cb)):
            if c == 0 or c is None and not nonzero(M, v, g):
                bad.append(("zero", loc))
            if any(v.bit(i) != P0 for i in range(13, 16)):
                bad.append(("large", loc))
        if ca is not None and cb is not None:
            return K(gmul(ca, cb), 16)
        if ca is not None:
            return lin_mul(b, ca)
        if cb is not None:
            return lin_mul(a, cb)
        raise Top("product of two unknown elements")

    def by(k):
        def f(args, g, loc):
            c = args[0].const()
            if c == 0 or c is None and not nonzero(M, args[0], g):
                bad.append(("zero", loc))
            return K(gmul(c, k), 16) if c is not None else lin_mul(args[0], k)
        return f
    M.hooks.update(gf13_mul=mul, gf13_mulx=by(2), gf13_divx=by(EXP[GF_ORD - 1]))


def locator_size(m, t):
    """number of leading coefficients the locator step can make non-zero"""
    N = 2 * t
    top = 0
    try:
        for pat in range(1 << N):
            S, C, L = reference_bm(N, pat)
            A = Alg(m, N + 1)
            A.size["s"], A.mem["s"] = 2 * N, {2 * k: x for k, x in enumerate(S)}
            A.size["sigma"], A.mem["sigma"] = 32, {}
            A.call("berlekamp_massey", [("s", 0), N, ("sigma", 0)])
            for k in range(top, 16):
                v = A.mem["sigma"].get(2 * k, Poison())
                if isinstance(v, Poison) or v:
                    top = k + 1
    except Exception:
        return 16
    return max(top, 1)


def run_repair(arg, want):
    t, lens = arg
    r = Rep(want)
    m = mod(["ecc/bch.c", "ecc/gf13.c"])
    nm = "bch_%dbit" % t
    gen, deg, eb = bch_code(t)
    fn = "bch_repair"
    loc = where(m, fn)
    P = ("C32", "C33", "C43")
    if "berlekamp_massey" not in m.funcs:
        r.rec(P, "bch-syndromes", UNDECIDED, fn, loc, "no separate locator step")
        return r.pack()
    size = locator_size(m, t)
    r.notes.append("%s: locator has up to %d coefficients" % (nm, size))
    for n in lens:
        def case():
            M = Machine(m)
            bad = []
            gf_hooks(M, bad)
            seen = []
            sig = [symv(M.sp.sym("sigma%d" % k, 13)).bits() for k in range(size)]
            sig = [V(16, tuple(x) + (P0,) * 3) for x in sig] + [K(0, 16)] * (16 - size)

            def bm(args, g, l):
                s, N, out = args
                seen.append(N.const())
                want = []
                bits_ = [pnot(p) for i in range(n) for p in byte(M, "chunk", i)]
                bits_ += [pnot(p) for p in sum((byte(M, "ecc", i) for i in range(eb)), [])[:deg]]
                for k in range(2 * t):
                    y = [P0] * 16
                    for i, b in enumerate(bits_):
                        x = EXP[i * (k + 1) % GF_ORD]
                        for j in range(13):
                            if x >> j & 1:
                                y[j] = px(y[j], b)
                    want.append(y)
                if N.const() != 2 * t:
                    r.rec(("C32", "C43"), "bch-syndrome-count", VIOLATED, fn, l, "%r syndromes are used, the code has %d" % (N, 2 * t))
                for k in range(2 * t):
                    v = M.load(Ptr(s.base, bits.add(s.off, K(2 * k, 64))), 16, g, l)
                    st, d = same(M, v.bits(), want[k])
                    r.rec(("C32", "C43"), "bch-syndromes", st, fn, l, d + (" (%s, %d bytes, syndrome %d)" % (nm, n, k + 1) if d else ""))
                for k in range(16):
                    M.store(Ptr(out.base, bits.add(out.off, K(2 * k, 64))), sig[k], 16, g, l)
                return None
            M.hooks["berlekamp_massey"] = bm
            M.call(fn, [Ptr("@" + nm, K(0, 64)), Ptr("chunk", K(0, 64)), K(n, 64), Ptr("ecc", K(0, 64))])
            if len(seen) != 1:
                r.rec(("C32", "C43"), "bch-syndromes", UNDECIDED, fn, loc, "locator step called %d times" % len(seen))
                return
            got = {}
            for b in ("chunk", "ecc"):
                x = lastvals(M, b)
                for i in range(n if b == "chunk" else eb):
                    got[b, i] = x[i] if i in x else V(8, tuple(byte(M, b, i)))
                for i in x:
                    if (b, i) not in got:
                        r.rec("C33", "bch-repair-bounds", VIOLATED, fn, loc, "%s byte %d written (%s, %d bytes)" % (b, i, nm, n))
            ref = {k: byte(M, k[0], k[1]) for k in got}
            for i in range(8 * n + deg):
                x = EXP[-i % GF_ORD]
                y = [P0] * 13
                p = 1
                for k in range(16):
                    v = lin_mul(sig[k], p)
                    y = [px(a, v.bit(j)) for j, a in enumerate(y)]
                    p = gmul(p, x)
                z = M.zero(y)
                k = ("chunk", i // 8) if i < 8 * n else ("ecc", (i - 8 * n) // 8)
                ref[k][i % 8 if i < 8 * n else (i - 8 * n) % 8] = px(ref[k][i % 8 if i < 8 * n else (i - 8 * n) % 8], z)
            for k in sorted(got):
                st, d = same(M, got[k].bits(), ref[k])
                if st == UNDECIDED:
                    st, d = roots(M, got[k].bits(), ref[k], d)
                r.rec(("C32", "C43"), "bch-corrections", st, fn, loc, d + (" (%s byte %d; %s, %d bytes)" % (k + (nm, n)) if d else ""))
            if bad:
                r.rec(("C32", "C43"), "field-operands", VIOLATED if bad[0][0] == "zero" else UNDECIDED, fn, bad[0][1], "a field operation gets %s" % ("zero" if bad[0][0] == "zero" else "a value outside the field"))
            else:
                r.rec(("C32", "C43"), "field-operands", PROVED, fn, loc)
            bounds(r, M, "bch-repair-bounds", fn, {"chunk": n, "ecc": eb}, (), "%s, %d bytes" % (nm, n))
            r.note(M)
        run(r, P, "bch-corrections", fn, loc, case)
    return r.pack()


def roots(M, got, ref, why):
    """corrections under other conditions: decide when both are zero sets of linear forms"""
    for a, b in zip(got, ref):
        if a == b:
            continue
        d = px(a, b)
        if d[1]:
            return UNDECIDED, why
        vs = [t for t in range(1, d[0].bit_length()) if d[0] >> t & 1]
        for t in vs:
            k = M.sp.preds.get(t)
            if k is None or t in M.sp.tops:
                continue
            if k[0] != "eq0" or any(x[1] or any(x[0] >> q & 1 for q in M.sp.tops) for x in k[1]):
                return UNDECIDED, why
        # distinct subspaces: their indicator functions differ
        return VIOLATED, "a position is corrected under another condition than being a root of the locator"
    return UNDECIDED, why


# ------------------------------------------------------- error locator (BM)
# Elements are Laurent polynomials over GF(2) in the discrepancies: the syndromes
# are a bijective function of the discrepancies, so partitioning on which of
# them vanish covers every syndrome sequence, and every quantity of the
# recurrence is such a polynomial.  Control is then constant and loops unfold.
class Poison:
    why = "undefined"


class Uninit(Poison):
    why = "uninitialised"


class Half(Poison):
    why = "copied in part"


def ladd(a, b):
    return a ^ b


def lmul(a, b):
    if len(a) > len(b):
        a, b = b, a
    if len(a) * len(b) > 3000000:
        raise Top("polynomial too large")
    r = set()
    for x in a:
        r ^= {tuple(p + q for p, q in zip(x, y)) for y in b}
    return frozenset(r)


def linv(a):
    if len(a) != 1:
        raise Top("inverse of a sum")
    return frozenset(tuple(-p for p in x) for x in a)


def reference_bm(N, pat):
    """textbook recurrence: returns (syndromes, locator coefficients)"""
    one = frozenset([(0,) * (N + 1)])
    Z = frozenset()
    C, B = [one] + [Z] * 39, [one] + [Z] * 39
    L, m, b = 0, 1, one
    S = []
    for n in range(N):
        d = frozenset([tuple(1 if k == n else 0 for k in range(N + 1))]) if pat >> n & 1 else Z
        s = d
        for i in range(1, L + 1):
            if C[i] and S[n - i]:
                s = s ^ lmul(C[i], S[n - i])
        S.append(s)
        if not d:
            m += 1
            continue
        f = lmul(d, linv(b))
        T = list(C)
        for i in range(len(B) - m):
            if B[i]:
                C[i + m] = C[i + m] ^ lmul(f, B[i])
        if 2 * L <= n:
            L, B, b, m = n + 1 - L, T, d, 1
        else:
            m += 1
    return S, C, L


class Alg:
    """run over a function whose control is constant, on field elements"""

    def __init__(s, m, N):
        s.m, s.mem, s.N = m, {}, N
        s.const = None       # the one field constant in use, the last indeterminate
        s.one = frozenset([(0,) * N])
        s.steps = 0
        s.bad = None
        s.size = {}
        s.uid = 0
        s.funcs = set()

    def el(s, v):
        if isinstance(v, frozenset):
            return v
        if isinstance(v, int):
            if v == 0:
                return frozenset()
            if v == 1:
                return s.one
            if 0 < v <= GF_ORD and s.const in (None, v):
                # 13 is prime: a constant outside GF(2) satisfies no polynomial
                # of a degree below 13, and is as good as an indeterminate
                s.const = v
                return frozenset([(0,) * (s.N - 1) + (1,)])
        raise Top("field constant %r" % (v,))

    def call(s, name, args):
        f = s.m.funcs.get(name)
        if f is None or not f.order:
            raise Top("call of " + str(name))
        s.funcs.add(name)
        env = {p[0]: a for p, a in zip(f.params, args)}
        b, prev = f.order[0], None
        while True:
            ph = {}
            for I in f.blocks[b].ins:
                if I.op != "phi":
                    break
                for v, bl in I.extra:
                    if bl == prev:
                        ph[I.res] = s.val(env, v, I.ty)
            env.update(ph)
            nxt = None
            for I in f.blocks[b].ins:
                s.steps += 1
                if s.steps > 400000:
                    raise Top("too long")
                if I.op == "phi":
                    continue
                if I.op == "br":
                    nxt = I.extra
                    break
                if I.op == "cbr":
                    c = s.val(env, I.ops[0], ir.INT(1))
                    if not isinstance(c, int):
                        raise Top("branch")
                    nxt = I.extra[0 if c & 1 else 1]
                    break
                if I.op == "ret":
                    return s.val(env, I.ops[0], I.ty) if I.ops else None
                if I.op in ("unreachable", "switch"):
                    raise Top(I.op)
                r = s.instr(f, I, env)
                if I.res is not None:
                    env[I.res] = r
            prev, b = b, nxt

    def val(s, env, o, ty):
        if o[0] == "l":
            return env[o[1]]
        if o[0] == "c":
            return o[1] & ((1 << ty.w) - 1) if ty.k == "int" else ("null", 0)
        if o[0] == "z":
            return 0 if ty.k == "int" else ("null", 0)
        if o[0] == "u":
            return Poison()
        raise Top("operand")

    def chk(s, base, off, n, I):
        z = s.size.get(base)
        if z is not None and not 0 <= off <= z - n:
            if s.bad is None:
                s.bad = (s.m.loc(I.dbg), "byte %d of %s, size %d" % (off, base.split("/")[-1], z))
            raise Runaway("out of range")

    def instr(s, f, I, env):
        val = lambda i, t: s.val(env, I.ops[i], t)
        sg = lambda x, w: x - (1 << w) if x >> (w - 1) else x
        op = I.op
        if op == "bin":
            a, b, w = val(0, I.ty), val(1, I.ty), I.ty.w
            M = (1 << w) - 1
            if isinstance(a, Poison) or isinstance(b, Poison):
                return Poison()
            if isinstance(a, int) and isinstance(b, int):
                e = I.extra
                if e in ("add", "sub", "mul", "and", "or", "xor"):
                    return {"add": a + b, "sub": a - b, "mul": a * b, "and": a & b, "or": a | b, "xor": a ^ b}[e] & M
                if e == "shl":
                    return a << b & M if b < w else 0
                if e == "lshr":
                    return a >> b if b < w else 0
                if e == "ashr":
                    return sg(a, w) >> min(b, w - 1) & M
                if e in ("sdiv", "srem", "udiv", "urem") and b:
                    x, y = (sg(a, w), sg(b, w)) if e[0] == "s" else (a, b)
                    q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                    return (q if e[1:] == "div" else x - q * y) & M
                raise Top(e)
            if I.extra == "xor":
                return s.el(a) ^ s.el(b)
            if I.extra == "and" and 0x1fff in (a, b):
                return a if isinstance(a, frozenset) else b
            raise Top("%s of field elements" % I.extra)
        if op == "icmp":
            a, b = val(0, I.ty), val(1, I.ty)
            if isinstance(a, Poison) or isinstance(b, Poison):
                w = [x for x in (a, b) if isinstance(x, (Uninit, Half))]
                if w:
                    raise Runaway("a value that is %s is tested" % w[0].why)
                raise Top("test of an undefined value")
            if isinstance(a, frozenset) or isinstance(b, frozenset):
                if I.extra in ("eq", "ne"):
                    return int((s.el(a) == s.el(b)) == (I.extra == "eq"))
                if I.extra in ("ugt", "sgt") and b == 0:
                    return int(bool(s.el(a)))
                raise Top("order of field elements")
            if isinstance(a, tuple) or isinstance(b, tuple):
                if a[0] == b[0]:
                    a, b = a[1] & (1 << 64) - 1, b[1] & (1 << 64) - 1
                    return int({"eq": a == b, "ne": a != b, "ult": a < b, "ule": a <= b, "ugt": a > b, "uge": a >= b}[I.extra])
                return int(I.extra == "ne")
            if I.extra[0] == "s":
                a, b = sg(a, I.ty.w), sg(b, I.ty.w)
            return int({"eq": a == b, "ne": a != b, "lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b}[I.extra if I.extra in ("eq", "ne") else I.extra[1:]])
        if op in ("zext", "sext", "trunc"):
            a = val(0, I.extra)
            if isinstance(a, int):
                if op == "sext":
                    a = sg(a, I.extra.w)
                return a & ((1 << I.ty.w) - 1)
            if op == "trunc" and I.ty.w < 13:
                raise Top("part of a field element")
            return a
        if op == "select":
            c = val(0, ir.INT(1))
            if not isinstance(c, int):
                raise Top("select")
            return val(1 if c & 1 else 2, I.ty)
        if op == "freeze":
            return val(0, I.ty)
        if op == "alloca":
            s.uid += 1
            nm = "%s/%s#%d" % (f.name, I.res.lstrip("%"), s.uid)
            s.size[nm] = s.m.size(I.ty) if I.ty is not None and I.ty.k != "ptr" else s.m.size(I.extra)
            s.mem[nm] = {}
            return (nm, 0)
        if op == "gep":
            b = val(0, ir.PTR)
            off = b[1]
            t = I.extra[0]
            for i, (it, v) in enumerate(I.extra[1]):
                x = s.val(env, v, it)
                if not isinstance(x, int):
                    raise Top("index")
                x = sg(x, it.w)
                if i == 0:
                    off += x * s.m.size(t)
                elif t.k == "struct":
                    off += s.m.field_off(t, x)
                    t = t.fs[x]
                else:
                    t = t.e
                    off += x * s.m.size(t)
            return (b[0], off)
        if op == "load":
            b = val(0, ir.PTR)
            n = I.ty.w // 8
            s.chk(b[0], b[1], n, I)
            if b[0] not in s.mem:
                raise Top("load from " + b[0])
            if n != 2:
                raise Top("access of %d bytes" % n)
            return s.mem[b[0]].get(b[1], Uninit())
        if op == "store":
            b = val(1, ir.PTR)
            n = I.ty.w // 8
            s.chk(b[0], b[1], n, I)
            if n != 2 or b[0] not in s.mem or b[1] % 2:
                raise Top("store")
            if b[0] == "s":
                s.bad = s.bad or (s.m.loc(I.dbg), "the syndromes are overwritten")
            s.mem[b[0]][b[1]] = val(0, I.ty)
            return None
        if op == "call":
            nm = I.extra[0]
            args = [s.val(env, a, t) for a, t in zip(I.ops, I.extra[1])]
            if nm == "gf13_mul":
                if any(isinstance(a, Poison) for a in args):
                    return Poison()
                a, b = s.el(args[0]), s.el(args[1])
                return lmul(a, b) if a and b else Poison()
            if nm == "gf13_div":
                if any(isinstance(a, Poison) for a in args):
                    return Poison()
                a, b = s.el(args[0]), s.el(args[1])
                return lmul(a, linv(b)) if a and b else Poison()
            if nm and nm.startswith(("llvm.memset", "memset")):
                d, v, n = args[:3]
                if v != 0 or n % 2:
                    raise Top("fill")
                if n:
                    s.chk(d[0], d[1], n, I)
                for k in range(0, n, 2):
                    s.mem[d[0]][d[1] + k] = frozenset()
                return d
            if nm and nm.startswith(("llvm.memcpy", "memcpy", "llvm.memmove", "memmove")):
                d, q, n = args[:3]
                if q[0] not in s.mem or d[0] not in s.mem:
                    raise Top("copy")
                if n:
                    s.chk(d[0], d[1], n, I)
                    s.chk(q[0], q[1], n, I)
                v = [s.mem[q[0]].get(q[1] + k, Uninit()) for k in range(0, n, 2)]
                for k, x in enumerate(v):
                    if 2 * k + 2 > n and not same_el(x, s.mem[d[0]].get(d[1] + 2 * k)):
                        x = Half()
                    s.mem[d[0]][d[1] + 2 * k] = x
                return d
            if nm and nm.startswith("llvm.lifetime"):
                return None
            return s.call(nm, args)
        raise Top(op)


def same_el(a, b):
    if isinstance(a, int) and isinstance(b, frozenset):
        a, b = b, a
    if isinstance(a, frozenset) and isinstance(b, int):
        return b == 0 and not a
    return a == b


def run_bm(arg, want):
    t = arg
    r = Rep(want)
    m = mod(["ecc/bch.c", "ecc/gf13.c"])
    fn = "berlekamp_massey"
    P = ("C32", "C33", "C43")
    f = m.funcs.get(fn)
    if f is None or not f.order or [p[1].k for p in f.params] != ["ptr", "int", "ptr"]:
        r.rec(P, "locator", UNDECIDED, "bch_repair", where(m, "bch_repair"), "no separate locator step")
        return r.pack()
    loc = where(m, fn)
    N = 2 * t
    # for a word over GF(2) the syndromes at 2k are squares of those at k and every
    # second discrepancy vanishes: failures for other sequences are not claimed
    odd = sum(2 << 2 * k for k in range(t))
    for pat in sorted(range(1 << N), key=lambda p: (p & odd != 0, p)):
        BAD = UNDECIDED if pat & odd else VIOLATED
        A = None
        try:
            S, C, L = reference_bm(N, pat)
            A = Alg(m, N + 1)
            A.size["s"], A.mem["s"] = 2 * N, {2 * k: x for k, x in enumerate(S)}
            A.size["sigma"], A.mem["sigma"] = 32, {}
            A.call(fn, [("s", 0), N, ("sigma", 0)])
            r.funcs |= A.funcs
            r.steps += A.steps
            tag = "discrepancies %s" % "".join("x" if pat >> k & 1 else "0" for k in range(N))
            st, d = PROVED, ""
            lead = A.mem["sigma"].get(0, Poison())
            lead = A.el(lead) if isinstance(lead, int) else lead
            if isinstance(lead, Poison) or not lead:
                st, d = BAD, "the constant coefficient of the locator is zero or undefined"
            for k in range(16) if st == PROVED else ():
                v = A.mem["sigma"].get(2 * k, Poison())
                if isinstance(v, int):
                    v = A.el(v)
                if isinstance(v, Poison):
                    st, d = BAD, "coefficient %d is %s" % (k, v.why)
                    break
                # coefficients beyond the corrigible degree are kept or dropped
                # (a constant factor does not change the roots)
                if v != lmul(C[k], lead) and not (k >= 8 and not v):
                    st, d = BAD, "coefficient %d of the locator is wrong" % k
                    break
            if st == PROVED and len(lead) != 1:
                st, d = UNDECIDED, "the constant coefficient is not known to be non-zero"
            r.rec("C32", "locator", st, fn, loc, d and d + " (%s)" % tag)
            if st == PROVED or L <= t:
                # with more errors than the code corrects any locator will do
                r.rec("C43", "locator", st, fn, loc, d and d + " (%s)" % tag)
            r.rec("C33", "locator-arrays", BAD if A.bad else PROVED, fn, A.bad[0] if A.bad else loc, A.bad[1] if A.bad else "")
        except Runaway as e:
            r.rec("C33" if A.bad else P, "locator-arrays" if A.bad else "locator", BAD, fn, A.bad[0] if A.bad else loc, A.bad[1] if A.bad else str(e))
        except Top as e:
            r.rec(P, "locator", UNDECIDED, fn, loc, "not expressible: %s" % e)
            break
    return r.pack()
