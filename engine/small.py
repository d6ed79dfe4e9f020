"""Rules that need no numeric domain of their own: module structure (C17), the
error-text table (C27), the table-driven field operations (C31), the table
generator (C34)."""
import ir
import bits
import ecc
from bits import Machine, Ptr, K, V, P0, P1, Top, newsym, px, pm, symv
from ecc import Rep, where, same, run, mod, GF_ORD, EXP, LOG, lastvals
from oblig import PROVED, VIOLATED, UNDECIDED


class Give(Exception):
    pass


class Oob(Exception):
    pass


# ------------------------------------------- exact integer forms, with branching
class N:
    """integer linear form over unknowns, held in w bits (value exact, two's complement when negative)"""
    __slots__ = ("f", "c", "w")

    def __init__(s, f, c, w):
        s.f, s.c, s.w = {k: v for k, v in f.items() if v}, c, w

    def key(s):
        return frozenset(s.f.items())


class Path:
    def __init__(s):
        s.env, s.rng, s.loads, s.trail = {}, {}, [], []

    def fork(s):
        p = Path()
        p.env, p.rng, p.loads, p.trail = dict(s.env), dict(s.rng), list(s.loads), list(s.trail)
        return p


class Fork:
    """evaluate a loop-free function on unknown integers, splitting on conditions the ranges do not decide"""

    def __init__(s, m, table=None):
        s.m = m
        s.sym = {}               # unknown -> (lo, hi)
        s.table = table          # (global, index form, path) -> value or None
        s.n = 0
        s.funcs = set()
        s.depth = 0

    def bound(s, p, n):
        lo = hi = n.c
        for k, a in n.f.items():
            l, h = s.sym[k]
            lo += a * (l if a > 0 else h)
            hi += a * (h if a > 0 else l)
        r = p.rng.get(n.key())
        if r is not None:
            lo, hi = max(lo, r[0] + n.c), min(hi, r[1] + n.c)
        neg = N({k: -a for k, a in n.f.items()}, 0, n.w)
        r = p.rng.get(neg.key())
        if r is not None:
            lo, hi = max(lo, n.c - r[1]), min(hi, n.c - r[0])
        return lo, hi

    def limit(s, p, n, lo, hi):
        l, h = s.bound(p, n)
        lo, hi = max(l, lo), min(h, hi)
        if lo > hi:
            return None
        q = p.fork()
        q.rng[n.key()] = (lo - n.c, hi - n.c)
        q.trail.append((n, lo, hi))
        return q

    def norm(s, p, n, signed=False):
        """bring the form into the range of its width: [(path, form)]"""
        lo0 = -(1 << (n.w - 1)) if signed else 0
        hi0 = lo0 + (1 << n.w) - 1
        lo, hi = s.bound(p, n)
        if lo >= lo0 and hi <= hi0:
            return [(p, n)]
        M = 1 << n.w
        out = []
        for k in range((lo - lo0) // M, (hi - lo0) // M + 1):
            q = s.limit(p, n, lo0 + k * M, hi0 + k * M)
            if q is not None:
                out.append((q, N(n.f, n.c - k * M, n.w)))
        if len(out) > 4:
            raise Give("wrap-around")
        return out

    def call(s, name, args, p):
        f = s.m.funcs.get(name)
        if f is None or not f.order:
            raise Give("call of %s" % name)
        if ir.cfg(f).loops:
            raise Give("loop in " + name)
        s.funcs.add(name)
        s.depth += 1
        if s.depth > 20:
            raise Give("recursion")
        q = p.fork()
        q.env = {a[0]: v for a, v in zip(f.params, args)}
        res = []
        work = [(q, f.order[0], None, 0)]
        while work:
            q, b, prev, i = work.pop()
            ins = f.blocks[b].ins
            if i == 0:
                ph = {}
                while i < len(ins) and ins[i].op == "phi":
                    for v, bl in ins[i].extra:
                        if bl == prev:
                            ph[ins[i].res] = s.val(q, v, ins[i].ty)
                    i += 1
                q.env.update(ph)
            while i < len(ins):
                I = ins[i]
                s.n += 1
                if s.n > 100000:
                    raise Give("too many paths")
                i += 1
                if I.op == "br":
                    work.append((q, I.extra, b, 0))
                    break
                if I.op == "cbr":
                    c = s.val(q, I.ops[0], ir.INT(1))
                    for q2, v in s.truth(q, c):
                        work.append((q2, I.extra[0 if v else 1], b, 0))
                    break
                if I.op == "switch":
                    v = s.val(q, I.ops[0], I.ty)
                    cur = q
                    for k, t in I.extra[1]:
                        k &= (1 << I.ty.w) - 1
                        yes = None
                        rest = None
                        for q2, w in s.truth(cur, s.compare(cur, "eq", v, N({}, k, I.ty.w))):
                            if w:
                                work.append((q2, t, b, 0))
                            else:
                                rest = q2
                        cur = rest
                        if cur is None:
                            break
                    if cur is not None:
                        work.append((cur, I.extra[0], b, 0))
                    break
                if I.op == "ret":
                    v = s.val(q, I.ops[0], I.ty) if I.ops else None
                    r = p.fork()
                    r.rng, r.loads, r.trail = q.rng, q.loads, q.trail
                    res.append((r, v))
                    break
                if I.op == "unreachable":
                    break
                rs = s.instr(q, I)
                if len(rs) == 1:
                    q = rs[0][0]
                    if I.res is not None:
                        q.env[I.res] = rs[0][1]
                    continue
                for q2, v in rs:
                    if I.res is not None:
                        q2.env[I.res] = v
                    work.append((q2, b, prev, i) if i else (q2, b, prev, 0))
                break
        s.depth -= 1
        return res

    def val(s, p, o, ty):
        k = o[0]
        if k == "l":
            return p.env[o[1]]
        if k == "c":
            return ("null",) if ty.k == "ptr" else N({}, o[1] & ((1 << ty.w) - 1), ty.w)
        if k == "g":
            return ("glob", o[1], N({}, 0, 64))
        if k == "z":
            return ("null",) if ty.k == "ptr" else N({}, 0, ty.w)
        raise Give("operand")

    def truth(s, p, c):
        """c: N of width 1 or a comparison"""
        if isinstance(c, N):
            if not c.f:
                return [(p, bool(c.c & 1))]
            raise Give("condition")
        _, parts, neg = c
        out = []
        for n, ranges in ((parts[0], parts[1]),):
            rest = [s.bound(p, n)]
            for lo, hi in ranges:
                q = s.limit(p, n, lo, hi)
                if q is not None:
                    out.append((q, not neg))
                nr = []
                for a, b in rest:
                    if hi < a or lo > b:
                        nr.append((a, b))
                        continue
                    if a < lo:
                        nr.append((a, lo - 1))
                    if b > hi:
                        nr.append((hi + 1, b))
                rest = nr
            for a, b in rest:
                q = s.limit(p, n, a, b)
                if q is not None:
                    out.append((q, neg))
        return out

    def compare(s, p, pr, a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            if pr in ("eq", "ne"):
                for x, y in ((a, b), (b, a)):
                    if y == ("null",):
                        if x == ("null",):
                            return N({}, 1 if pr == "eq" else 0, 1)
                        if x[0] in ("glob",):
                            return N({}, 0 if pr == "eq" else 1, 1)
            raise Give("pointer comparison")
        big = 1 << 70
        d = N({k: a.f.get(k, 0) - b.f.get(k, 0) for k in set(a.f) | set(b.f)}, a.c - b.c, 64)
        if pr in ("eq", "ne"):
            return ("cmp", (d, [(0, 0)]), pr == "ne")
        r = {"lt": (-big, -1), "le": (-big, 0), "gt": (1, big), "ge": (0, big)}[pr[1:]]
        return ("cmp", (d, [r]), False)

    def instr(s, p, I):
        op = I.op
        val = lambda i, t: s.val(p, I.ops[i], t)
        if op == "bin":
            a, b = val(0, I.ty), val(1, I.ty)
            w = I.ty.w
            e = I.extra
            if not isinstance(a, N) or not isinstance(b, N):
                raise Give(e)
            if not a.f and not b.f and e in ("and", "or", "xor", "shl", "lshr"):
                x, y = a.c & ((1 << w) - 1), b.c & ((1 << w) - 1)
                v = {"and": x & y, "or": x | y, "xor": x ^ y, "shl": x << y if y < 64 else 0, "lshr": x >> y}[e]
                return [(p, N({}, v & ((1 << w) - 1), w))]
            if e in ("add", "sub"):
                g = 1 if e == "add" else -1
                f = dict(a.f)
                for k, v in b.f.items():
                    f[k] = f.get(k, 0) + g * v
                return [(p, N(f, a.c + g * b.c, w))]
            if e == "mul" and (not a.f or not b.f):
                if a.f:
                    a, b = b, a
                return [(p, N({k: v * a.c for k, v in b.f.items()}, a.c * b.c, w))]
            if e == "shl" and not b.f:
                return [(p, N({k: v << b.c for k, v in a.f.items()}, a.c << b.c, w))]
            if e in ("urem", "srem") and not b.f and b.c > 0:
                out = []
                for q, n in s.norm(p, a, e == "srem"):
                    lo, hi = s.bound(q, n)
                    if lo < 0 or hi // b.c - lo // b.c > 8:
                        raise Give("remainder")
                    for k in range(lo // b.c, hi // b.c + 1):
                        q2 = s.limit(q, n, k * b.c, k * b.c + b.c - 1)
                        if q2 is not None:
                            out.append((q2, N(n.f, n.c - k * b.c, w)))
                return out
            if e == "and" and not b.f and (b.c + 1) & b.c == 0:
                return s.norm(p, N(a.f, a.c, b.c.bit_length())) if False else [(q, N(n.f, n.c, w)) for q, n in s.norm(p, N(a.f, a.c, b.c.bit_length()))]
            raise Give(e)
        if op == "icmp":
            t = I.ty
            if t.k == "ptr":
                return [(p, s.compare(p, I.extra, val(0, t), val(1, t)))]
            sg = I.extra[0] == "s"
            out = []
            for q, a in s.norm(p, val(0, t), sg):
                for q2, b in s.norm(q, val(1, t), sg):
                    out.append((q2, s.compare(q2, I.extra, a, b)))
            return out
        if op in ("zext", "sext", "trunc"):
            a = val(0, I.extra)
            if isinstance(a, tuple) and a[0] == "exp":
                if op == "sext" or I.ty.w < 16:
                    raise Give(op)
                return [(p, a)]
            if isinstance(a, tuple):
                return [(q, N({}, (1 if v else 0) * (1 if op == "zext" else -1), I.ty.w)) for q, v in s.truth(p, a)]
            if op == "trunc":
                return s.norm(p, N(a.f, a.c, I.ty.w))
            return [(q, N(n.f, n.c, I.ty.w)) for q, n in s.norm(p, a, op == "sext")]
        if op == "select":
            c = val(0, ir.INT(1))
            return [(q, s.val(q, I.ops[1 if v else 2], I.ty)) for q, v in s.truth(p, c)]
        if op == "freeze":
            return [(p, val(0, I.ty))]
        if op == "gep":
            b = val(0, ir.PTR)
            if b[0] != "glob":
                raise Give("pointer arithmetic")
            out = [(p, b[2])]
            t = I.extra[0]
            for i, (it, v) in enumerate(I.extra[1]):
                x = s.val(p, v, it)
                if i:
                    if t.k == "struct":
                        raise Give("structure")
                    t = t.e
                es = s.m.size(t)
                nx = []
                for q, acc in out:
                    for q2, n in s.norm(q, x, True):
                        f = dict(acc.f)
                        for k, v2 in n.f.items():
                            f[k] = f.get(k, 0) + v2 * es
                        nx.append((q2, N(f, acc.c + n.c * es, 64)))
                out = nx
            return [(q, ("glob", b[1], n)) for q, n in out]
        if op == "load":
            b = val(0, ir.PTR)
            if not isinstance(b, tuple) or b[0] != "glob":
                raise Give("load")
            g = s.m.globs.get(b[1])
            if g is None or not g.const:
                raise Give("load of variable " + b[1])
            es = s.m.size(I.ty)
            n = b[2]
            if any(v % es for v in n.f.values()) or n.c % es:
                raise Give("alignment")
            ix = N({k: v // es for k, v in n.f.items()}, n.c // es, 64)
            p.loads.append((b[1], ix, es, s.m.loc(I.dbg)))
            return [(p, s.table(s, b[1], ix, I.ty, p))]
        if op == "call":
            nm = I.extra[0]
            if nm and nm.startswith("llvm."):
                raise Give(nm)
            args = [s.val(p, a, t) for a, t in zip(I.ops, I.extra[1])]
            out = []
            for r, v in s.call(nm, args, p):
                r.env = dict(p.env)
                out.append((r, v))
            return out
        raise Give(op)


# ------------------------------------------------------------------ C31, tables
def run_gf_tables(arg, want):
    r = Rep(want)
    m = mod(["ecc/bch.c", "ecc/gf13.c"])
    M = Machine(m)
    ex, lg = M.gbytes("gf13_exp"), M.gbytes("gf13_log")
    if ex is None or lg is None:
        r.rec(("C31", "C33", "C43"), "exp-table", UNDECIDED, "gf13_exp", ("gf13.c", 0), "no constant field tables of these names")
        return r.pack()
    ex = [int.from_bytes(ex[i:i + 2], "little") for i in range(0, len(ex), 2)]
    lg = [int.from_bytes(lg[i:i + 2], "little") for i in range(0, len(lg), 2)]
    loc = ("gf13.c", 0)
    bad = [i for i in range(len(ex)) if ex[i] != EXP[i % GF_ORD]]
    r.rec(("C31", "C43"), "exp-table", VIOLATED if bad else PROVED, "gf13_exp", loc,
          "gf13_exp[%d] is %#x, not alpha^%d = %#x" % (bad[0], ex[bad[0]], bad[0], EXP[bad[0] % GF_ORD]) if bad else "")
    bad = [a for a in range(1, len(lg)) if a < 8192 and lg[a] % GF_ORD != LOG[a] % GF_ORD]
    r.rec(("C31", "C43"), "log-table", VIOLATED if bad else PROVED, "gf13_log", loc,
          "gf13_log[%#x] is %d, the logarithm is %d" % (bad[0], lg[bad[0]], LOG[bad[0]]) if bad else "")
    for p, ok in ((("C31", "C43"), len(ex) >= GF_ORD and len(lg) >= 8192), ("C33", len(lg) >= 8192)):
        r.rec(p, "table-size", PROVED if ok else VIOLATED, "gf13_log", loc, "" if ok else "a table is too short")
    vals = {}
    ops = {"gf13_mul": (("a", "b"), {"a": 1, "b": 1}, 0), "gf13_div": (("a", "b"), {"a": 1, "b": -1}, 0),
           "gf13_mulx": (("a",), {"a": 1}, 1), "gf13_divx": (("a",), {"a": 1}, -1)}
    for fn, (ps, f0, c0) in ops.items():
        if fn not in m.funcs or not m.funcs[fn].order:
            # an unused inline function leaves no code
            r.notes.append(fn + " is not used in this build")
            continue
        loc = where(m, fn)
        for zero in (False, True):
            def table(F, g, ix, ty, p):
                if g == "gf13_log":
                    if not ix.f and 0 <= ix.c < len(lg):
                        return N({}, lg[ix.c], ty.w)
                    if len(ix.f) != 1 or ix.c or list(ix.f.values()) != [1]:
                        raise Give("index of the logarithm table")
                    k = "log " + next(iter(ix.f))
                    lo, hi = min(lg[(0 if zero else 1):8192]), max(lg[(0 if zero else 1):8192])
                    F.sym[k] = (lo, hi)
                    return N({k: 1}, 0, ty.w)
                if g == "gf13_exp":
                    return ("exp", ix)
                raise Give("table " + g)
            F = Fork(m, table)
            args = []
            for q in ps:
                F.sym[q] = (0 if zero else 1, 8191)
                args.append(N({q: 1}, 0, 16))
            try:
                res = F.call(fn, args, Path())
                if not zero and any(not isinstance(v, tuple) or v[0] != "exp" for _, v in res):
                    raise Give("result is not read from the table")
            except Give as e:
                if len(ps) == 1 and direct(r, m, fn, c0, zero, loc):
                    continue
                r.rec("C33" if zero else ("C31", "C43"), "table-" + ("index" if zero else fn[5:]), UNDECIDED, fn, loc, "not expressible: %s" % e)
                continue
            r.funcs |= F.funcs
            r.steps += F.n
            for p, v in res:
                # indices
                for g, ix, es, l in p.loads:
                    n = len(ex) if g == "gf13_exp" else len(lg)
                    lo, hi = F.bound(p, ix)
                    st, d = PROVED, ""
                    if lo < 0 or hi >= n:
                        st, d = witness(F, p, ix, lambda x: not 0 <= x < n, lg, ps, zero)
                        d = d and "%s indexed with %s" % (g, d)
                    r.rec("C33" if zero else ("C31", "C33"), "table-index", st, fn, l, d)
                if zero:
                    continue
                ix = v[1]
                want_f = {"log " + k: a for k, a in f0.items()}
                d = {k: ix.f.get(k, 0) - want_f.get(k, 0) for k in set(ix.f) | set(want_f)}
                if not any(d.values()) and (ix.c - c0) % GF_ORD == 0:
                    r.rec(("C31", "C43"), "table-" + fn[5:], PROVED, fn, loc)
                else:
                    st, dd = wrong(F, p, ix, want_f, c0, lg, ps)
                    r.rec(("C31", "C43"), "table-" + fn[5:], st, fn, loc, dd)
    return r.pack()


def direct(r, m, fn, c0, zero, loc):
    """multiplication by a fixed element, computed on the bits"""
    try:
        M = Machine(m)
        a = newsym(M, "a", 13)
        v = M.call(fn, [V(16, tuple(a.bits()) + (P0,) * 3)])
    except (ecc.Top, ecc.Runaway):
        return False
    if M.loads:
        return False
    r.note(M)
    if zero:
        r.rec(("C31", "C33"), "table-index", PROVED, fn, loc)
    else:
        st, d = same(M, v.bits(), ecc.lin_mul(V(16, tuple(a.bits()) + (P0,) * 3), EXP[c0 % GF_ORD]).bits())
        r.rec(("C31", "C43"), "table-" + fn[5:], st, fn, loc, d)
    return True


def cases(F, p, lg, ps, zero):
    """sample operands that take this path"""
    c = [1, 2, 3, 4, 7, 0x1000, 0x100d, 0x201b ^ 0x2000, 8190, 8191, EXP[4095], EXP[4096], EXP[8190], EXP[8189], EXP[1], EXP[100]]
    if zero:
        c.append(0)
    for a in c:
        for b in c if len(ps) > 1 else [0]:
            env = {"a": a, "b": b, "log a": lg[a], "log b": lg[b]}
            ok = True
            for n, lo, hi in p.trail:
                x = n.c + sum(v * env[k] for k, v in n.f.items())
                if not lo <= x <= hi:
                    ok = False
                    break
            if ok:
                yield env


def witness(F, p, ix, f, lg, ps, zero):
    for env in cases(F, p, lg, ps, zero):
        x = ix.c + sum(v * env[k] for k, v in ix.f.items())
        if f(x):
            return VIOLATED, "%d for operands %s" % (x, ", ".join("%#x" % env[q] for q in ps))
    return UNDECIDED, "an index that could not be bounded"


def wrong(F, p, ix, wf, c0, lg, ps):
    for env in cases(F, p, lg, ps, False):
        x = ix.c + sum(v * env[k] for k, v in ix.f.items())
        y = c0 + sum(v * env[k] for k, v in wf.items())
        if (x - y) % GF_ORD:
            return VIOLATED, "wrong result for operands %s" % ", ".join("%#x" % env[q] for q in ps)
    return UNDECIDED, "exponent"


# ----------------------------------------------------------- C31, without tables
def run_gf_plain(arg, want):
    r = Rep(want)
    m = mod(["ecc/bch.c", "ecc/gf13.c"], ["-DGF13_NO_TABLES"])
    # products of the basis
    for fn, k in (("gf13_mulx", 2), ("gf13_divx", EXP[GF_ORD - 1])):
        if fn not in m.funcs or not m.funcs[fn].order:
            r.notes.append(fn + " is not used in the table-free build")
            continue
        loc = where(m, fn)

        def case():
            M = Machine(m)
            a = newsym(M, "a", 13)
            v = M.call(fn, [V(16, tuple(a.bits()) + (P0,) * 3)])
            st, d = same(M, v.bits(), ecc.lin_mul(V(16, tuple(a.bits()) + (P0,) * 3), k).bits())
            r.rec(("C31", "C43"), "plain-" + fn[5:], st, fn, loc, d)
            r.note(M)
        run(r, ("C31", "C43"), "plain-" + fn[5:], fn, loc, case)
    fn = "gf13_mul"
    loc = where(m, fn)

    def case2():
        M = Machine(m)
        a, b = newsym(M, "a", 13), newsym(M, "b", 13)
        v = M.call(fn, [V(16, tuple(a.bits()) + (P0,) * 3), V(16, tuple(b.bits()) + (P0,) * 3)])
        ref = [P0] * 16
        for i in range(13):
            for j in range(13):
                t = pm(a.bit(i), b.bit(j))
                x = EXP[(i + j) % GF_ORD]
                for q in range(13):
                    if x >> q & 1:
                        ref[q] = px(ref[q], t)
        st, d = same(M, v.bits(), ref)
        r.rec(("C31", "C43"), "plain-mul", st, fn, loc, d)
        r.note(M)
    run(r, ("C31", "C43"), "plain-mul", fn, loc, case2)
    fn = "gf13_div"
    loc = where(m, fn)

    def case3():
        M = Machine(m)
        ex = {}

        # (power of a, power of b, power of x), or None for zero
        dlog, q = {}, 1
        for i in range(GF_ORD):
            dlog[q] = i
            q = (q << 1) ^ (0x201b if q & 0x1000 else 0)

        def elem(e):
            y = M.sp.sym("0" if e is None else "a^%d b^%d x^%d" % e, 16, ("power", e))
            ex[y] = e
            return symv(y)

        def of(v):
            if v.const() is not None:
                c = v.const()
                return ZERO if c == 0 else (0, 0, dlog[c]) if c in dlog else None
            y = next(iter(v.lin[1])) if v.lin is not None and len(v.lin[1]) == 1 and v.lin[0] == 0 else None
            return ZERO if y in ex and ex[y] is None else ex.get(y)
        ZERO = ("zero",)

        def mul(args, g, l):
            x, y = of(args[0]), of(args[1])
            if x is None or y is None:
                raise Top("product of something that is not a power of the operands")
            if x is ZERO or y is ZERO:
                return elem(None)
            return elem(tuple((i + k) % GF_ORD for i, k in zip(x, y)))
        M.hooks["gf13_mul"] = mul
        v = M.call(fn, [elem((1, 0, 0)), elem((0, 1, 0))])
        r.note(M)
        e = of(v)
        if e is None:
            raise Top("quotient")
        ok = e == (1, GF_ORD - 1, 0)
        r.rec(("C31", "C43"), "plain-div", PROVED if ok else VIOLATED, fn, loc, "" if ok else "computes 0" if e is ZERO else "computes a^%d * b^%d * x^%d, not a / b" % e)
    run(r, ("C31", "C43"), "plain-div", fn, loc, case3)
    return r.pack()


# ---------------------------------------------------------------- C27 strerror
def run_strerror(arg, want):
    r = Rep(want)
    m = ir.load_lib(["dhara/error.c"], passes="mem2reg")
    fn = "dhara_strerror"
    loc = where(m, fn)
    f = m.funcs[fn]
    en = m.enums()
    codes = {k: v for k, v in en.items() if k.startswith("DHARA_E_")} if isinstance(en, dict) else {}
    if "DHARA_E_MAX" not in codes:
        raise ir.AnalysisBroken("error codes")
    mx = codes.pop("DHARA_E_MAX")
    pts = {0, 1, mx - 1, mx, mx + 1, (1 << 31) - 1, 1 << 31, (1 << 32) - 1, 255, 256, 65535, 65536}
    pts |= set(codes.values())
    for g in list(m.funcs.values()):
        for b in g.order:
            for i in g.blocks[b].ins:
                ks = [o[1] for o in i.ops if o and o[0] == "c" and isinstance(o[1], int)]
                if i.op == "switch":
                    ks += [k for k, _ in i.extra[1]]
                for k in ks:
                    for d in (-1, 0, 1):
                        pts.add((k + d) & 0xffffffff)

    def elem(F, g, ix, ty, p):
        gl = m.globs[g]
        c = ix.c
        if ix.f:
            raise Give("index")
        n = m.size(gl.ty) // m.size(ty)
        if not 0 <= c < n:
            raise Oob("entry %d of a table of %d" % (c, n), p.loads[-1][3])
        if gl.init[0] in ("z", "zero"):
            return ("null",) if ty.k == "ptr" else N({}, 0, ty.w)
        if gl.init[0] != "agg":
            raise Give("initialiser")
        v = gl.init[1][c]
        return F.val(p, v, ty)
    texts = {}
    fall = {}
    for x in sorted(pts):
        F = Fork(m, elem)
        try:
            res = F.call(fn, [N({}, x, 32)], Path())
        except Give as e:
            r.rec("C27", "text", UNDECIDED, fn, loc, "not expressible: %s" % e)
            return r.pack()
        except Oob as e:
            r.rec("C27", "table-index", VIOLATED, fn, e.args[1], "code %d reads %s" % (x, e.args[0]))
            continue
        r.funcs |= F.funcs
        r.steps += F.n
        xs = x if x < 1 << 31 else x - (1 << 32)
        for p, v in res:
            bad = [l for l in p.loads if not 0 <= l[1].c < m.size(m.globs[l[0]].ty) // l[2]]
            r.rec("C27", "table-index", VIOLATED if bad else PROVED, fn, bad[0][3] if bad else loc,
                  "code %d reads entry %d" % (xs, bad[0][1].c) if bad else "")
            if bad:
                continue
            if v == ("null",) or v is None:
                r.rec("C27", "text", VIOLATED, fn, loc, "no text for code %d" % xs)
                continue
            if not isinstance(v, tuple) or v[0] != "glob" or v[2].f or not m.globs.get(v[1]) or not m.globs[v[1]].const:
                r.rec("C27", "text", UNDECIDED, fn, loc, "text of code %d is not a constant" % xs)
                continue
            t = text(m, v)
            r.rec("C27", "text", PROVED if t else VIOLATED, fn, loc, "" if t else "empty text for code %d" % xs)
            (texts if x < mx else fall)[x] = t
    inv = {}
    for c, t in texts.items():
        inv.setdefault(t, []).append(c)
    dup = [(t, c) for t, c in inv.items() if len(c) > 1]
    r.rec("C27", "distinct", VIOLATED if dup else PROVED, fn, loc, "codes %s share the text %r" % (dup[0][1], dup[0][0]) if dup else "")
    miss = [k for k, v in codes.items() if v not in texts]
    r.rec("C27", "every-code", VIOLATED if miss else PROVED, fn, loc, "no text for %s" % miss[0] if miss else "")
    one = len(set(fall.values())) <= 1
    clash = set(fall.values()) & set(texts.values())
    r.rec("C27", "fallback", PROVED if one and not clash else VIOLATED, fn, loc,
          "" if one and not clash else "unknown codes do not have one text of their own")
    return r.pack()


def text(m, v):
    g = m.globs[v[1]]
    if g.init is None or g.init[0] != "agg":
        return ""
    b = [x[1] & 255 for x in g.init[1][v[2].c:]]
    return bytes(b[:b.index(0)] if 0 in b else b).decode("latin1")


# ------------------------------------------------------------- C17 structure
NANDCALLS = {"dhara_nand_is_bad", "dhara_nand_mark_bad", "dhara_nand_erase", "dhara_nand_prog", "dhara_nand_is_free",
             "dhara_nand_read", "dhara_nand_copy"}
MEMCALLS = {"memcpy", "memset", "memmove", "memcmp", "bcmp", "strlen", "memchr"}


def run_structure(arg, want):
    r = Rep(want)
    srcs = ir.lib_sources(ir.REPO, ["dhara", "ecc"])
    for extra in ([], ["-DGF13_NO_TABLES"]):
        if extra and not any("gf13" in x for x in srcs):
            continue
        m = ir.load_lib(srcs, extra=extra, passes="mem2reg")
        tag = " (%s)" % extra[0] if extra else ""
        defined = {n: f for n, f in m.funcs.items() if f.order}
        for n, g in sorted(m.globs.items()):
            if n.startswith("llvm."):
                continue
            ok = g.const
            r.rec("C17", "no-mutable-storage", PROVED if ok else VIOLATED, n, ("global", 0), "" if ok else "%s is a variable with static storage%s" % (n, tag))
        edges = {}
        for n, f in sorted(defined.items()):
            r.funcs.add(n)
            edges[n] = set()
            dyn = None
            for b in f.order:
                for i in f.blocks[b].ins:
                    r.steps += 1
                    if i.op == "alloca":
                        if b != f.order[0] or dynamic(i):
                            dyn = m.loc(i.dbg) if i.dbg else where(m, n)
                    if i.op == "call":
                        r.calls += 1
                        t = i.extra[0]
                        l = m.loc(i.dbg) if i.dbg else where(m, n)
                        if t is None:
                            r.rec("C17", "no-outside-calls", UNDECIDED, n, l, "indirect call")
                        elif t in defined:
                            edges[n].add(t)
                        elif t.startswith("llvm.stacksave") or t == "alloca":
                            dyn = l
                        elif t.startswith("llvm.") or t in NANDCALLS or t in MEMCALLS or t.startswith("__builtin"):
                            r.rec("C17", "no-outside-calls", PROVED, n, l)
                        else:
                            r.rec("C17", "no-outside-calls", VIOLATED, n, l, "calls %s%s" % (t, tag))
            r.rec("C17", "fixed-stack", VIOLATED if dyn else PROVED, n, dyn or where(m, n), "stack object of variable size" if dyn else "")
        # recursion
        state = {}

        def visit(n, trail):
            state[n] = 1
            for t in sorted(edges[n]):
                if state.get(t) == 1:
                    k = trail[trail.index(t):] if t in trail else [t]
                    r.rec("C17", "no-recursion", VIOLATED, n, where(m, n), "%s calls itself%s" % (" -> ".join(k + [t]), tag))
                elif t not in state:
                    visit(t, trail + [t])
            state[n] = 2
        for n in sorted(edges):
            if n not in state:
                visit(n, [n])
        for n in sorted(edges):
            r.rec("C17", "no-recursion", PROVED, n, where(m, n))
    return r.pack()


def dynamic(i):
    return bool(i.ops) and not (i.ops[0] and i.ops[0][0] == "c")


# ------------------------------------------------------------------ C34 gentab
def run_gentab(arg, want):
    r = Rep(want)
    m = mod(["tools/gentab.c"])
    fn = "main"
    loc = where(m, fn)

    def steps(M, poly):
        """remainders of the 256 bytes for a reflected polynomial"""
        out = []
        for i in range(256):
            c = [P1 if i >> k & 1 else P0 for k in range(8)] + [P0] * 24
            for _ in range(8):
                f = c[0]
                c = [px(c[k + 1] if k < 31 else P0, pm(f, poly[k])) for k in range(32)]
            out.append(c)
        return out
    # which functions take part: those main calls
    f = m.funcs["main"]
    called = []
    for b in f.order:
        for i in f.blocks[b].ins:
            if i.op == "call" and i.extra[0] in m.funcs and m.funcs[i.extra[0]].order:
                called.append(i.extra[0])

    def case():
        M = Machine(m)
        p = newsym(M, "poly", 32)
        given = []
        printed = []
        parse = [c for c in called if any(q[1].k == "ptr" for q in m.funcs[c].params) and len(m.funcs[c].params) == 2]
        if len(parse) != 1:
            raise Top("argument parsing")

        def hook(args, g, l):
            M.store(args[1], p, 32, g, l)
            given.append(l)
            return K(0, 32)
        M.hooks[parse[0]] = hook

        def pr(args, g, l):
            if g != P1:
                raise Top("conditional output")
            printed.append((args, l))
            return K(0, 32)
        M.hooks["printf"] = pr
        M.hooks["strtoul"] = lambda a, g, l: symv(M.topsym("number", 64))
        fixargv(M)
        try:
            v = M.call("main", [K(2, 32), Ptr("argv", K(0, 64))])
        finally:
            r.note(M)
        ref = steps(M, p.bits())
        nums = []
        for args, l in printed:
            fmt = M.gbytes(args[0].base[1:]) if isinstance(args[0], Ptr) and args[0].base[0] == "@" else None
            if fmt is None:
                raise Top("output format")
            fmt = fmt.split(b"\0")[0].decode("latin1")
            k = 0
            j = 0
            while j < len(fmt):
                if fmt[j] == "%":
                    e = j + 1
                    while e < len(fmt) and fmt[e] not in "diuxXcsp%lh":
                        e += 1
                    while e < len(fmt) and fmt[e] in "lh":
                        e += 1
                    if fmt[e] != "%":
                        k += 1
                        if fmt[e] in "xX":
                            nums.append((args[k], l, fmt))
                    j = e
                j += 1
        if len(nums) != 256:
            r.rec("C34", "crc-tool-table", VIOLATED if nums else UNDECIDED, fn, loc, "%d entries are printed" % len(nums))
            return
        for i, (v, l, fmt) in enumerate(nums):
            st, d = same(M, v.bits()[:32], ref[i])
            r.rec("C34", "crc-tool-table", st, fn, l, d + (" (entry %d)" % i if d else ""))
            j = fmt.find("x", fmt.find("%"))
            okf = fmt.startswith("0x%") and ("08" in fmt[:j] or "#010" in fmt[:j]) or "%#010x" in fmt
            r.rec("C34", "crc-tool-format", PROVED if okf else UNDECIDED, fn, l, "" if okf else "format %r" % fmt)
    run(r, "C34", "crc-tool-table", fn, loc, case)

    # the shipped table is what the tool prints for the shipped polynomial
    mc = mod(["ecc/crc32.c"])
    data = None
    for n, g in mc.globs.items():
        if g.const and mc.size(g.ty) == 1024:
            data = Machine(mc).gbytes(n)
    ok = data is not None and [int.from_bytes(data[i:i + 4], "little") for i in range(0, 1024, 4)] == ecc.crc_table()
    r.rec("C34", "shipped-table", PROVED if ok else (VIOLATED if data is not None else UNDECIDED), "crc32_nand", ("crc32.c", 0), "" if ok else "the shipped table is not the generator's")

    # reading the polynomial: one more digit
    pf = [c for c in called if len(m.funcs[c].params) == 2]
    if len(pf) == 1:
        parse_rule(r, m, pf[0])
    return r.pack()


def fixargv(M):
    """argv[1] points to the text"""
    old = M.instr

    def instr(f, ins, env, g):
        if ins.op == "load" and ins.ty.k == "ptr":
            q = M.val(env, ins.ops[0], ir.PTR)
            if isinstance(q, Ptr) and q.base == "argv" and q.off.const() is not None:
                return Ptr("arg%d" % (q.off.const() // 8), K(0, 64))
        return old(f, ins, env, g)
    M.instr = instr


def hexval(c):
    return c - 48 if 48 <= c <= 57 else c - 55 if 65 <= c <= 70 else c - 87 if 97 <= c <= 102 else None


def truthpoly(bs, f):
    """polynomial of a function of 8 bits"""
    t = [1 if f(x) else 0 for x in range(256)]
    for q in range(8):
        for x in range(256):
            if x >> q & 1:
                t[x] ^= t[x ^ (1 << q)]
    r = P0
    for x in range(256):
        if t[x]:
            k = P1
            for q in range(8):
                if x >> q & 1:
                    k = pm(k, bs[q])
            r = px(r, k)
    return r


def parse_rule(r, m, fn):
    """the number read from a text: any character after a first digit; any octal digits in full length"""
    loc = where(m, fn)

    def call(M, chars):
        for k, c in enumerate(chars):
            M.known["text", ("c", k), 8, 0] = c
        M.hooks["fprintf"] = lambda a, g, l: K(0, 32)
        old = M.instr

        def instr(f, ins, env, g):
            if ins.op == "load" and ins.ty.k == "ptr":
                return Ptr("stream", K(0, 64))
            return old(f, ins, env, g)
        M.instr = instr
        x = M.call(fn, [Ptr("text", K(0, 64)), Ptr("out", K(0, 64))])
        got = lastvals(M, "out")
        if sorted(got) != [0, 1, 2, 3]:
            raise Top("result bytes %s" % sorted(got))
        r.note(M)
        return x, [got[i // 8].bit(i % 8) for i in range(32)]

    def one():
        M = Machine(m)
        c = newsym(M, "c", 8)
        x, got = call(M, [K(49, 8), c, K(0, 8), K(0, 8)])
        ok = truthpoly(c.bits(), lambda v: v == 0 or hexval(v) is not None)
        st, d = same(M, [x.bit(0), x.bit(31)], [pm(P1, px(P1, ok))] * 2)
        r.rec("C34", "crc-tool-argument", st, fn, loc, d and "characters accepted: " + d)
        ref = [truthpoly(c.bits(), lambda v: (1 if v == 0 else 16 + hexval(v)) >> k & 1 if v == 0 or hexval(v) is not None else 0) for k in range(32)]
        st, d = same(M, [pm(b, ok) for b in got], ref)
        r.rec("C34", "crc-tool-argument", st, fn, loc, d and "value of a digit: " + d)
    run(r, "C34", "crc-tool-argument", fn, loc, one)

    def full():
        M = Machine(m)
        ds = [newsym(M, "d%d" % k, 3) for k in range(7)]
        for pre in ([], [K(48, 8), K(120, 8)]):
            M = Machine(m)
            ds = [newsym(M, "d%d" % k, 3) for k in range(7)]
            cs = [V(8, tuple(d.bits()) + (P0, P1, P1, P0, P0)) for d in ds]
            x, got = call(M, pre + [K(49, 8)] + cs + [K(0, 8), K(0, 8)])
            ref = []
            for k in range(7):
                ref += list(ds[6 - k].bits()) + [P0]
            ref += [P1, P0, P0, P0]
            st, d = same(M, got + [x.bit(0)], ref + [P0])
            r.rec("C34", "crc-tool-argument", st, fn, loc, d and "eight digits: " + d)
    run(r, "C34", "crc-tool-argument", fn, loc, full)
