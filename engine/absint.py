"""Forward abstract interpretation of LLVM IR.

Abstract state = store of value terms (terms.py) x facts (branch literals that
hold) x trace of externally visible events.  States are partitioned by event
trace; side-effect free diamonds are merged into gated values; loops are
generalised (fresh header values, induction-variable closed forms, inductive
facts, written-array segments) and re-checked until stable.  Static helpers are
inlined context-sensitively, so no rule depends on how a function is split into
helpers.
"""
import sys
import math
import terms
from terms import *
import ir
from ir import AnalysisBroken

sys.setrecursionlimit(20000)


class Budget(AnalysisBroken):
    pass


# ---------------------------------------------------------------------------
_atset, _geby, _geby2 = {}, {}, {}


def atomset(L):
    r = _atset.get(L)
    if r is None:
        r = _atset[L] = frozenset(tolin(L)[1])
    return r


def ge_by(L, nL, F):
    """L >= 0 from F >= 0 (True), not (False), unknown (None)"""
    k = (L, F)
    r = _geby.get(k, 7)
    if r == 7:
        _lepair_atoms()
        r = True if nonneg_diff(L, F) else False if nonneg_diff(nL, F) else None
        _geby[k] = r
    return r


def floordiv(S_, e):
    """floor(S / 2^e) in closed form, or None"""
    Q, R = divisible(S_, e)
    if not isc(R):
        if geZ(R) and geZ(sub(addk(p2(e, 0), -1), R)):
            return Q
        return None
    r = cv(R)
    lo = 1 << max(0, min(bounds(e)[0], 60))
    if 0 <= r < lo:
        return Q
    if -lo <= r < 0:
        return addk(Q, -1)
    return None


def gcdnorm(R):
    """R >= 0 scaled down by the common factor of its coefficients"""
    if R.op != "lin" or R.w:
        return R
    c, ms = R.a
    g = 0
    for m, k in ms:
        g = math.gcd(g, k)
    if g <= 1:
        return R
    return fromlin(c // g, {m: k // g for m, k in ms}, 0)


_lf, _pairs, _cs, _cg = {}, set(), {}, {}


def csub(a, b):
    r = _cs.get((a, b))
    if r is None:
        r = _cs[(a, b)] = sub(a, b)
    return r


def cgcd(R):
    r = _cg.get(R)
    if r is None:
        r = _cg[R] = gcdnorm(R)
    return r


def linform(t):
    """(constant, {atom: coefficient}, [(atom, coefficient, lo, hi)]) of an integer term"""
    r = _lf.get(t)
    if r is None:
        c, d = tolin(t)
        r = _lf[t] = (c, d, [(m, k, *zb_atom(m)) for m, k in d.items()])
    return r


def _lepair_atoms():
    if len(_pairs) != 2 * len(LE_PAIRS):
        _pairs.clear()
        for a, b in LE_PAIRS:
            _pairs.add(toZ(a))
            _pairs.add(toZ(b))
    return _pairs


def nonneg_diff(R, G):
    """R - G >= 0 by interval bounds"""
    cr, dr, lr = linform(R)
    cg, dg, lg = linform(G)
    lo = cr - cg
    pr = False
    for m, k, l, h in lr:
        k -= dg.get(m, 0)
        if k > 0:
            lo += k * l
        elif k:
            lo += k * h
            if lo < -(1 << 80):
                return False
            if m in _pairs or (m.op == "mul" and ispow(m)):
                pr = True
    for m, k, l, h in lg:
        if m in dr:
            continue
        if k < 0:
            lo -= k * l
        else:
            lo -= k * h
            if lo < -(1 << 80):
                return False
            if m in _pairs or (m.op == "mul" and ispow(m)):
                pr = True
    if lo >= 0:
        return True
    if not pr:
        return False
    # cancellation of 2^e*F against 2^f*F
    up, dn, pq = set(), set(), False
    for m, k, l, h in lr:
        k -= dg.get(m, 0)
        if k and m in _pairs:
            pq = True
        if k and m.op == "mul" and ispow(m):
            (up if k > 0 else dn).add(m.a[1])
    for m, k, l, h in lg:
        if m not in dr:
            if m in _pairs:
                pq = True
            if m.op == "mul" and ispow(m):
                (up if k < 0 else dn).add(m.a[1])
    if pq or up & dn:
        return geZ(sub(R, G))
    return False


def ispow(m):
    e = m.a[0]
    return e is not None and e.op != "c"


def ge_by2(L, nL, F, G):
    k = (L, F, G)
    r = _geby2.get(k, 7)
    if r == 7:
        _lepair_atoms()
        r = None
        R1, R2 = csub(L, F), csub(nL, F)
        if nonneg_diff(R1, G):
            r = True
        elif nonneg_diff(R2, G):
            r = False
        else:
            for A, B in ((F, G), (G, F)):
                for X, res in ((L, True), (nL, False)):
                    R = csub(X, A) if A is not F else R1 if res else R2
                    Rn = cgcd(R)
                    if Rn is not R and nonneg_diff(Rn, B):
                        r = res
        _geby2[k] = r
    return r


_ineq = {}


def fact_ineqs(f, v):
    """integer inequalities (terms >= 0) a fact stands for"""
    if f.op == "ge0":
        return (f.a[0] if v else neg_ge(f.a[0]),)
    if f.op == "eq0" and f.a[0].w == 0:
        d = f.a[0]
        if v:
            return (d, neg(d))
        if d.op == "mod":
            # x mod 2^e != 0: x mod 2^e >= 1, (x-1) mod 2^e <= 2^e - 2
            x, e = d.a
            return (addk(d, -1), sub(addk(p2(e, 0), -2), mod(addk(x, -1), e)))
        b = bounds(d)
        if b[0] >= 0:
            return (addk(d, -1),)
        if b[1] <= 0:
            return (addk(neg(d), -1),)
    if f.op == "eq0" and not v and f.a[0].op == "s" and f.a[0].w > 1:
        return (addk(toZ(f.a[0]), -1),)
    return ()


_lemkeys, _lemdiv, _lemmul, _lemscale = {}, {}, {}, {}


def lem_round(F, D):
    """x <= S (fact F)  =>  x >> e <= S >> e, for D = x >> e"""
    x, e = D.a
    if atomset(F).isdisjoint(atomset(x)):
        return ()
    S_ = add(F, x)
    if not atomset(S_).isdisjoint(atomset(x)):
        return ()
    B = floordiv(S_, e)
    if B is None:
        return ()
    N = sub(B, D)
    return (N, mul(N, p2(e, 0)))


def lem_strict(F, m):
    """x mod 2^e != 0 and S - x >= 0 with S a multiple of 2^e  =>  S - x >= 1"""
    x, e = m.a
    if atomset(F).isdisjoint(atomset(x)):
        return ()
    out = []
    for S_ in (add(F, x), sub(F, x)):
        if atomset(S_).isdisjoint(atomset(x)) and not (isc(S_) and cv(S_)):
            R = divisible(S_, e)[1]
            if isc(R) and cv(R) == 0:
                out.append(addk(F, -1))
    return tuple(out)


# ---------------------------------------------------------------------------
class Content:
    """abstract content of a byte buffer: base + ordered writes (newest last)"""
    __slots__ = ("base", "writes", "_k")

    def __init__(s, base, writes=()):
        s.base, s.writes = base, writes
        s._k = None

    def key(s):
        if s._k is None:
            s._k = (s.base, tuple((a, b, k, p.key() if isinstance(p, Content) else
                                   (p[0].key(), p[1]) if k == "cpy" else p) for a, b, k, p in s.writes))
        return s._k

    def __eq__(s, o):
        return s is o or s.key() == o.key()

    def __hash__(s):
        return hash(s.key())

    def __repr__(s):
        return "Content(%r,%r)" % (s.base, s.writes)


class Seg:
    """loop-written segment: element j (0<=j<count) of `size` bytes at
    lo+stride*j, value described by the loop record"""
    __slots__ = ("rec", "stride", "size", "n")

    def __init__(s, rec, stride, size):
        s.rec, s.stride, s.size, s.n = rec, stride, size, None

    def __repr__(s):
        return "Seg(%s,stride=%d)" % (s.rec.name, s.stride)


class Event:
    __slots__ = ("kind", "args", "ok", "mem", "buf", "loc", "stack", "facts", "extra", "idx", "tag", "st")

    def __init__(s, kind, args, ok, st, loc, stack, extra=None):
        s.kind, s.args, s.ok, s.loc, s.stack, s.extra = kind, args, ok, loc, stack, extra
        s.mem, s.buf = st.mem, st.buf
        s.st = st.fork()
        s.tag = None

    def __repr__(s):
        return "%s(%s)%s@%s:%d" % (s.kind, ", ".join(map(repr, s.args)),
                                   "" if s.ok is None else "=ok" if s.ok else "=fail", s.loc[0], s.loc[1])


class LoopRec:
    def __init__(s, name, loc):
        s.name, s.loc = name, loc
        s.entry = s.head = None
        s.backs, s.exits = [], []
        s.it = None
        s.phis = {}     # loc/reg key -> (kind, term, entry)
        s.segalts = {}  # obj -> list of (back index, word term)
        s.shapes = {}   # key -> (symbol, offset): the phi is symbol+offset
        s.stable = False


class State:
    __slots__ = ("mem", "buf", "facts", "clauses", "imps", "tr", "n", "frozen", "dead", "_mp", "_dc", "_iq", "strong", "_str", "al")

    def __init__(s):
        s.mem, s.buf, s.facts, s.clauses, s.imps = {}, {}, {}, (), ()
        s.tr, s.n = None, 0
        s.frozen = False
        s._mp = None
        s._dc = {}
        s._iq = None
        s.strong = False
        s._str = None
        s.al = None

    def strengthen(s):
        """the same state, deciding with the more expensive lemmas"""
        if s.strong:
            return s
        if s._str is None:
            n = s.fork()
            n.strong = True
            n._dc = {k: v for k, v in s._dc.items() if v is not None}
            s._str = n
        return s._str

    def fork(s):
        r = State()
        r.mem, r.buf, r.facts = s.mem, s.buf, s.facts
        s.frozen = True
        r.frozen = True
        r.clauses, r.imps, r.tr, r.n = s.clauses, s.imps, s.tr, s.n
        r._mp = s._mp
        r._dc = s._dc
        r._iq = s._iq
        r.strong = s.strong
        r.al = s.al
        r._str = s._str if not s.strong else None
        return r

    def thaw(s):
        if s.frozen:
            s.mem = dict(s.mem)
            s.buf = dict(s.buf)
            s.facts = dict(s.facts)
            s.frozen = False

    def add(s, ev):
        s.tr = (s.tr, ev)
        s.n += 1
        ev.idx = s.n

    def events(s):
        out = []
        t = s.tr
        while t is not None:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    # -- facts --------------------------------------------------------------
    def decide(s, c, depth=0):
        if isc(c):
            return bool(cv(c))
        v = s.facts.get(c)
        if v is not None:
            return v
        key = (c, depth)
        v = s._dc.get(key, 7)
        if v != 7:
            return v
        v = s._decide(c, depth)
        s._dc[key] = v
        return v

    def _decide(s, c, depth):
        op = c.op
        if op == "not":
            r = s.decide(c.a[0], depth)
            return None if r is None else not r
        if op == "band":
            allt = True
            for x in c.a[0]:
                r = s.decide(x, depth)
                if r is False:
                    return False
                if r is None:
                    allt = False
            return True if allt else None
        if op == "ite":
            r = s.decide(c.a[0], depth)
            if r is not None:
                return s.decide(c.a[1] if r else c.a[2], depth)
            a, b = s.decide(c.a[1], depth), s.decide(c.a[2], depth)
            return a if a == b else None
        if c.conds and depth < 3:
            c2 = s.simp(c)
            if c2 is not c:
                return s.decide(c2, depth + 1)
        if op == "ge0":
            return s._dec_ge(c.a[0], depth)
        if op == "eq0":
            return s._dec_eq(c.a[0], depth)
        return None

    def _ineqs(s):
        if s._iq is None:
            r = []
            for f, v in s.facts.items():
                q = _ineq.get((f, v))
                if q is None:
                    q = _ineq[(f, v)] = fact_ineqs(f, v)
                r.extend(q)
            s._iq = r
        return s._iq

    def _dec_ge(s, L, depth):
        nL = neg_ge(L)
        fs = s._ineqs()
        at = atomset(L)
        rel = [F for F in fs if not at.isdisjoint(atomset(F))]
        for F in rel:
            r = ge_by(L, nL, F)
            if r is not None:
                return r
        if depth >= 1:
            return None
        if s.strong:
            for F in s._lemmas(L, fs):
                r = ge_by(L, nL, F)
                if r is None:
                    fa = atomset(F) | at
                    for G in fs:
                        if fa.isdisjoint(atomset(G)):
                            continue
                        r = ge_by2(L, nL, F, G)
                        if r is not None:
                            break
                if r is not None:
                    return r
        if len(fs) < 60 or len(rel) < 30:
            # combine two facts sharing an atom with the goal
            for i, F in enumerate(rel):
                for G in rel[i:]:
                    r = ge_by2(L, nL, F, G)
                    if r is not None:
                        return r
        return None

    def _lemmas(s, L, fs):
        """consequences of the facts shaped like the goal: rounding
        (x <= S  =>  x>>e <= S>>e) and scaling by a power of two in the goal"""
        out = []
        at = atomset(L)
        dv = _lemkeys.get(L)
        if dv is None:
            divs, exps = set(), set()
            for m in at:
                e, f = splitm(m)
                if e is not None and not isc(e):
                    exps.add(e)
                for y in f:
                    if y.op == "div" and not y.a[0].w:
                        divs.add(y)
            dv = _lemkeys[L] = (tuple(divs), tuple(exps))
        for D in dv[0]:
            for F in fs:
                q = _lemdiv.get((F, D))
                if q is None:
                    q = _lemdiv[(F, D)] = lem_round(F, D)
                if q:
                    out.extend(q)
        # a multiple of 2^e other than x bounds x strictly
        for f, v in s.facts.items():
            if v or f.op != "eq0" or f.a[0].op != "mod" or f.a[0].w:
                continue
            m = f.a[0]
            for F in fs:
                q = _lemmul.get((F, m))
                if q is None:
                    q = _lemmul[(F, m)] = lem_strict(F, m)
                if q:
                    out.extend(q)
        for e in dv[1]:
            for F in fs:
                G = _lemscale.get((F, e))
                if G is None:
                    G = _lemscale[(F, e)] = mul(F, p2(e, 0))
                if not atomset(G).isdisjoint(at):
                    out.append(G)
        return out

    def _dec_eq(s, d, depth):
        if d.w == 0:
            r = s._dec_ge(addk(d, -1), 1)
            if r is True:
                return False
            r = s._dec_ge(addk(neg(d), -1), 1)
            if r is True:
                return False
            if s._dec_ge(d, 1) is True and s._dec_ge(neg(d), 1) is True:
                return True
        if d.op == "mod":
            x, e = d.a
            for f, v in s.facts.items():
                if f.op == "eq0" and f.a[0].op == "mod":
                    y, e2 = f.a[0].a
                    if y.w != x.w:
                        if x.w == 0:
                            y = toZ(y)
                        else:
                            continue
                    df = sub(x, y)
                    if v:
                        if isc(df):
                            k = cen(cv(df), df.w)
                            if k == 0 and geZ(sub(e2, e)):
                                return True
                            if abs(k) == 1 and bounds(e)[0] >= 1 and bounds(e2)[0] >= 1:
                                return False
                        Q, R = divisible(df, e)
                        if geZ(sub(e2, e)) and isc(R) and cv(R) == 0:
                            return True
                    else:
                        if isc(df) and cv(df) == 0 and geZ(sub(e, e2)):
                            return False
            if isc(x) and cv(x) != 0 and bounds(e)[0] >= 1 and cen(cv(x), x.w) in (1, -1):
                return False
        if d.op in ("s", "word", "zx", "lin"):
            # x mod 2^e != 0  =>  x != 0
            z = toZ(d) if d.op != "lin" else d
            for f, v in s.facts.items():
                if not v and f.op == "eq0" and f.a[0].op == "mod" and f.a[0].a[0] in (d, z):
                    return False
        # equalities to substitute
        if depth < 2:
            mp = s.eqmap()
            if mp:
                d2 = subst(d, mp)
                if d2 is not d:
                    r = s.decide(eq0(d2), depth + 1)
                    if r is not None:
                        return r
        return None

    def eqmap(s):
        mp = {}
        for f, v in s.facts.items():
            if v and f.op == "eq0":
                d = f.a[0]
                if d.w == 0 and d.op in ("lin", "zx"):
                    c, ms = tolin(d)
                    for m, k in ms.items():
                        if m.op == "zx" and m.a[0].op == "s" and abs(k) == 1 and len(ms) == 1:
                            val = -c * k
                            if 0 <= val <= M(m.a[0].w):
                                mp[m.a[0]] = C(val, m.a[0].w)
                elif d.op == "s":
                    mp[d] = C(0, d.w)
                elif d.op == "lin" and len(d.a[1]) == 1 and d.w:
                    m, k = d.a[1][0]
                    if m.op == "s" and k == 1:
                        mp[m] = C(-d.a[0], d.w)
        return mp

    def learn(s, c):
        """record a consequence, as a stepping stone, even if it is decided"""
        if isc(c) or c.op == "not" or c.conds or c in s.facts:
            return s.assume(c)
        s.thaw()
        s._mp = s._iq = s._str = None
        s.facts[c] = True

    def assume(s, c, v=True):
        """add literal; False if contradictory"""
        d = s.decide(c)
        if d is not None:
            return d == v
        s.thaw()
        s._mp = None
        s._iq = None
        s._str = None
        s._dc = {k: x for k, x in s._dc.items() if x is not None}
        return s._assume(c, v)

    def _assume(s, c, v):
        if c.op == "not":
            c, v = c.a[0], not v
        if isc(c):
            return bool(cv(c)) == v
        if c.op == "band":
            if v:
                for x in c.a[0]:
                    if not s.assume(x, True):
                        return False
                return True
            und = [x for x in c.a[0] if s.decide(x) is None]
            if len(und) == 1:
                return s.assume(und[0], False)
            s.facts[c] = False
            s._dc = {}
            s._str = None
            s.clauses = s.clauses + (c,)
            return True
        if c.conds:
            c2 = s.simp(c)
            if c2 is not c:
                return s.assume(c2, v)
        s.facts[c] = v
        s._iq = None
        s._dc = {k: x for k, x in s._dc.items() if x is not None}
        # implied
        for (k, pol, fs) in s.imps:
            if (s.facts.get(k) if k.op != "band" else s.bandfact(k)) == pol:
                for f, fv in fs:
                    if f not in s.facts:
                        d = s.decide(f)
                        if d is None:
                            if not s.assume(f, fv):
                                return False
                        elif d != fv:
                            return False
        if s.clauses:
            keep = []
            for cl in s.clauses:
                und, sat = [], False
                for x in cl.a[0]:
                    r = s.decide(x)
                    if r is False:
                        sat = True
                        break
                    if r is None:
                        und.append(x)
                if sat:
                    continue
                if not und:
                    return False
                if len(und) == 1:
                    s.clauses = tuple(x for x in s.clauses if x is not cl)
                    if not s.assume(und[0], False):
                        return False
                    continue
                keep.append(cl)
            if len(keep) != len(s.clauses):
                ks = set(keep)
                s.clauses = tuple(x for x in s.clauses if x in ks)
        return True

    def bandfact(s, k):
        v = s.facts.get(k)
        if v is None:
            for x in k.a[0]:
                v = s.facts.get(x) if x.op != "not" else None
                if x.op == "not":
                    v = s.facts.get(x.a[0])
                    v = None if v is None else not v
                if v is not True:
                    return None
            return True
        return v

    def simp(s, t):
        """resolve gated values whose condition is decided here"""
        if not t.conds:
            return t
        mp = {}
        for c in t.conds:
            v = s.facts.get(c)
            if v is None:
                v = s.decide(c, 3)
            if v is not None:
                mp[c] = TRUE if v else FALSE
        if not mp:
            return t
        for f, v in s.facts.items():
            if f.op != "eq0" or True:
                mp.setdefault(f, TRUE if v else FALSE)
        r = subst(t, mp)
        if r is not t and r.conds:
            return s.simp(r) if r.conds != t.conds else r
        return r


# ---------------------------------------------------------------------------
class Frame:
    __slots__ = ("f", "cfg", "path", "stack", "allocas")

    def __init__(s, f, path, stack):
        s.f, s.path, s.stack = f, path, stack
        s.cfg = ir.cfg(f)
        s.allocas = []


class Engine:
    MAXSTATES = 60000

    def __init__(s, module, externs, objinit, opts=None):
        s.m = module
        s.externs = externs
        s.objinit = objinit          # (obj, off, width) -> T or None
        s.bufobjs = {}               # obj -> initial Content factory/Content
        s.structs = set()
        s.notes = []                 # analysis notes (undecided, opaque)
        s.viol = []                  # intrinsic violations (null deref, ...)
        s.nsteps = 0
        s.uid = 0
        s.loops = []
        s.analysed = set()
        s.callsites = 0
        s.loopcache = {}
        s.formcache = {}
        s.hooks = {}
        s.sizes = {}
        s.badglob = set()
        s.opts = opts or {}
        s.acc = []                   # (obj, off, len, write, loc, state) buffer accesses

    def fresh(s, name, w, lo=0, hi=None):
        s.uid += 1
        return S("%s#%d" % (name, s.uid), w, lo, hi)

    # -- memory -----------------------------------------------------------------
    def is_buf(s, obj):
        if obj in s.bufobjs:
            return True
        if obj[:1] == "@" and obj not in s.badglob:
            c = s.constant(obj)
            if c is not None:
                s.bufobjs[obj] = c
                return True
            s.badglob.add(obj)
        return False

    def constant(s, obj):
        """contents of a constant global array of integers"""
        g = s.m.globs.get(obj[1:])
        if g is None or not g.const or not g.init or g.init[0] != "agg" or g.ty.k != "arr":
            return None
        el = g.ty.e
        if el.k != "int" or el.w not in (8, 16, 32, 64) or len(g.init[1]) > 64:
            return None
        n = el.w // 8
        ws = []
        for i, x in enumerate(g.init[1]):
            if x[0] != "c":
                return None
            for k in range(n):
                ws.append((C(i * n + k, 64), C(1, 64), "b", C(x[1] >> (8 * k) & 255, 8)))
        s.sizes.setdefault(obj, C(n * len(g.init[1]), 64))
        return Content(("opaque", obj), tuple(ws))

    def content(s, st, obj):
        c = st.buf.get(obj)
        if c is None:
            c = s.bufobjs[obj]
        return c

    def load(s, st, p, w, fr, ins):
        """p: ptr term (not ite)"""
        obj, off = p.a
        if s.is_buf(obj):
            r = None
            n = w // 8
            for k in range(n):
                b = s.rdbyte(st, s.content(st, obj), add(off, C(k, 64)))
                b = zext(b, w) if w > 8 else b
                r = b if r is None else bor2(r, shl(b, C(8 * k, 0)))
            s.access(st, obj, off, n, False, ins, fr)
            return r
        if not isc(off):
            s.note(st, fr, ins, "load at symbolic offset of %s" % obj)
            return s.fresh("ld_" + obj, w)
        o = cv(off)
        v = st.mem.get((obj, o))
        if v is None:
            v = s.objinit(obj, o, w)
            if v is None:
                v = s.initval(obj, o, w)
        if v.w != w:
            if v.w > w and isc(off):
                return trunc(v, w)
            s.note(st, fr, ins, "width mismatch load %s+%d" % (obj, o))
            return s.fresh("ld_" + obj, w)
        return v

    def initval(s, obj, o, w):
        return S("%s+%d" % (obj, o), w)

    def store(s, st, p, v, fr, ins):
        obj, off = p.a
        st.thaw()
        st._mp = None
        if s.is_buf(obj):
            n = v.w // 8
            c = s.content(st, obj)
            for k in range(n):
                c = s.wrbyte(st, c, add(off, C(k, 64)), byte(v, k) if v.w > 8 else v)
            st.buf[obj] = c
            s.access(st, obj, off, n, True, ins, fr)
            return
        if not isc(off):
            s.note(st, fr, ins, "store at symbolic offset of %s" % obj)
            for k in list(st.mem):
                if k[0] == obj:
                    st.mem[k] = s.fresh("hv", st.mem[k].w)
            return
        st.mem[(obj, cv(off))] = v

    def access(s, st, obj, off, n, wr, ins, fr):
        if s.opts.get("access"):
            s.acc.append((obj, off, C(n, 64) if isinstance(n, int) else n, wr, s.where(fr, ins), st.fork(), fr.f.name))

    def wrbyte(s, st, c, off, v):
        ws = c.writes
        # drop an older single byte write at the same offset
        ws = tuple(x for x in ws if not (x[0] is off and x[2] == "b"))
        return Content(c.base, ws + ((off, C(1, 64), "b", v),))

    def wrrange(s, st, c, lo, ln, kind, payload):
        ws = []
        for x in c.writes:
            if st.decide(ge0(sub(toZ(x[0]), toZ(lo)))) and \
               st.decide(ge0(sub(add(toZ(lo), toZ(ln)), add(toZ(x[0]), toZ(x[1]))))):
                continue
            ws.append(x)
        return Content(c.base, tuple(ws) + ((lo, ln, kind, payload),))

    @staticmethod
    def wordbyte(space, keys, off):
        """byte at offset off of content (space, keys)"""
        z = toZ(off)
        c, d = tolin(z)
        if not all(k % 4 == 0 for k in d.values()):
            c, d = tolin(off)
        if all(k % 4 == 0 for k in d.values()):
            k = c % 4
            return byte(word(space, sub(off, C(k, off.w)), *keys), k)
        return fn("byte_" + space, 8, off, *keys)

    def rdbyte(s, st, c, off, depth=0):
        zo = toZs(off)
        conds = []
        res = None
        for lo, ln, kind, pl in reversed(c.writes):
            rel = sub(zo, toZs(lo))
            a = st.decide(ge0(rel))
            if a is False:
                continue
            b = st.decide(ge0(addk(sub(toZ(ln), rel), -1)))
            if b is False:
                continue
            inside = TRUE if (a and b) else band(ge0(rel), ge0(addk(sub(toZ(ln), rel), -1)))
            relm = sub(off, lo)
            if kind == "b":
                v = pl
            elif kind == "fill":
                v = pl
            elif kind == "src":
                sp, keys, so = pl
                v = s.wordbyte(sp, keys, add(so, relm))
            elif kind == "cpy":
                v = s.rdbyte(st, pl[0], add(pl[1], relm), depth + 1)
            elif kind == "seg":
                k = low2(relm)
                idx = sub(relm, C(k, 64))
                v = byte(s.segelem(pl, idx), k)
            else:
                v = s.fresh("opq", 8)
            if isc(inside):
                res = v
                break
            conds.append((inside, v))
            if len(conds) > 3:
                res = s.fresh("ambig", 8)
                break
        if res is None:
            base = c.base
            if base[0] == "space":
                res = s.wordbyte(base[1], base[2], off)
            elif base[0] == "fill":
                res = base[1]
            else:
                res = s.wordbyte("opaque:" + str(base[1]), (), off)
        for cnd, v in reversed(conds):
            res = ite(cnd, v, res)
        return res

    def segelem(s, pl, idx):
        """the word at byte offset idx of a segment written by a loop"""
        rec = pl.rec
        alts = rec.segalts.get(pl.n)
        if alts and pl.size == 4 and pl.stride in (4, -4) and len({w for i, w in alts}) == 1:
            w = alts[0][1]
            var = False
            num = rec.it.a[0].split("#")[-1]
            for a in subterms(w):
                if a.op == "s" and a is not rec.it and a.a[0].endswith("#" + num):
                    var = True
            if not var and pl.rec.stable:
                q32, q64 = quarter(idx), quarter(idx, 64)
                if pl.stride < 0:
                    q64 = sub(addk(zext(rec.it, 64), -1), q64)
                    q32 = sub(addk(rec.it, -1), q32)
                return subst(w, {zext(rec.it, 64): q64, toZ(rec.it): toZs(q64), rec.it: q32})
        return fn("seg:" + rec.it.a[0], 32, idx)

    def rd32(s, st, c, off):
        r = None
        for k in range(4):
            b = zext(s.rdbyte(st, c, add(off, C(k, 64))), 32)
            r = b if r is None else bor2(r, shl(b, C(8 * k, 0)))
        return r

    def midpoint(s, st, a, b, r, tz):
        """u <= v  =>  u <= (u+v)/2 <= v"""
        if cv(b) != 1 or a.op != "lin" or "phishape" not in s.opts:
            return
        c, ms = a.a
        if len(ms) != 2 or any(cen(k, a.w) != 1 for m, k in ms):
            return
        c = cen(c, a.w)
        m1, m2 = toZ(ms[0][0]), toZ(ms[1][0])
        pv = s.opts["prove"]
        for u, v in ((addk(m1, c), m2), (m1, addk(m2, c))):
            for lo, hi in ((u, v), (v, u)):
                if pv(st, ge0(sub(hi, lo))) is True:
                    st.learn(ge0(sub(tz(r), lo)))
                    st.learn(ge0(sub(hi, tz(r))))
                    break

    def in_range(s, st, v, lo, hi):
        if bounds(v)[0] >= lo and st.decide(ge0(sub(C(hi, 0), toZ(v)))) is True:
            return True
        pv = s.opts.get("prove")
        if v.w != 32 or ("phishape" not in s.opts and v.op != "lin"):
            return False
        if pv is None:
            pv = lambda st, g: st.decide(g) is True or st.strengthen().decide(g)
        z = toZs(v)
        return pv(st, ge0(addk(z, -lo))) is True and pv(st, ge0(addk(neg(z), hi))) is True

    # -- operations whose form depends on what the path knows --------------------------
    def binop(s, st, op, a, b):
        r = binop(op, a, b)
        pv = s.opts.get("prove")
        if pv is None:
            return r
        if op == "ashr" and r.op == "ashr" and isc(b):
            z = toZs(a)
            if pv(st, ge0(z)) is True:
                r = asn(a, toZ(b))
                k = 1 << cv(b)
                d = sub(z, scale(toZ(r), k))
                st.assume(ge0(d))
                st.assume(ge0(addk(neg(d), k - 1)))
                s.midpoint(st, a, b, r, toZs)
        elif op == "lshr" and isc(b) and r.op == "div":
            s.midpoint(st, a, b, r, toZ)
        elif op in ("lshr", "and") and r.w == 32 and "phishape" in s.opts and a.op not in ("s", "word"):
            # x mod 2^e = x, x >> e = 0 where the path bounds x below 2^e
            for _ in range(2):
                mp = {}
                for x in subterms(r):
                    if x.op not in ("mod", "div") or x.w not in (0, 32) or isc(x.a[1]):
                        continue
                    z = toZ(x.a[0]) if x.w else x.a[0]
                    if st.decide(ge0(sub(addk(p2(x.a[1], 0), -1), z))) is True and (x.w or st.decide(ge0(z)) is True):
                        mp[x] = x.a[0] if x.op == "mod" else C(0, x.w)
                if not mp:
                    break
                r = subst(r, mp)
        elif op == "or" and r.op == "or":
            for x, y in ((a, b), (b, a)):
                for m, k in tolin(x)[1].items():
                    ex, fs = splitm(m)
                    if ex is None:
                        continue
                    ee = addk(ex, terms.v2(k))
                    Q, R = terms.divisible(x, ee)
                    if not (isc(R) and cv(R) == 0):
                        continue
                    g = ge0(sub(addk(p2(ee, 0), -1), toZ(y)))
                    ok = pv(st, g) is True
                    if not ok and len(tolin(y)[1]) == 1:
                        # 2^a*z < 2^b  <=  z < 2^(b-a)
                        (m2, k2), = tolin(y)[1].items()
                        e2, f2 = splitm(m2)
                        if e2 is not None and k2 == 1 and tolin(y)[0] == 0 and len(f2) == 1:
                            ok = pv(st, ge0(sub(addk(p2(sub(ee, e2), 0), -1), toZ(f2[0])))) is True
                            if ok:
                                st.learn(ge0(sub(addk(p2(sub(ee, e2), 0), -1), toZ(f2[0]))))
                    if ok:
                        st.assume(g)
                        return add(x, y)
        return r

    # -- diagnostics ---------------------------------------------------------------
    def where(s, fr, ins):
        return s.m.loc(ins.dbg) if ins is not None and ins.dbg else (s.m.path.split("/")[-1], 0)

    def note(s, st, fr, ins, msg):
        w = s.where(fr, ins) if ins is not None else ("", 0)
        t = "%s:%d: %s" % (w[0], w[1], msg)
        if t not in s.notes:
            s.notes.append(t)

    # -- execution -------------------------------------------------------------------
    def val(s, fr, env, st, v, ty):
        k = v[0]
        if k == "l":
            t = env.get(v[1])
            if t is None:
                t = s.fresh("undef" + v[1], ty.w or 32)
            if t.conds:
                t = st.simp(t)
            return t
        if k == "c":
            return C(v[1], 64 if ty.k == "ptr" else ty.w)
        if k == "g":
            return ptr("@" + v[1])
        if k == "u":
            return s.fresh("uninit", 64 if ty.k == "ptr" else ty.w)
        if k == "cgep":
            b = s.val(fr, env, st, v[2], ir.PTR)
            return s.gep(fr, env, st, b, v[1], v[3])
        if k == "z":
            return C(0, ty.w)
        raise AnalysisBroken("value kind %r" % (v,))

    def gep(s, fr, env, st, b, et, idx):
        if b.op == "ite":
            return mk("ite", 64, b.a[0], s.gep(fr, env, st, b.a[1], et, idx), s.gep(fr, env, st, b.a[2], et, idx))
        off = C(0, 64)
        t = et
        for n, (ty, v) in enumerate(idx):
            x = s.val(fr, env, st, v, ty)
            x = sext(x, 64) if x.w < 64 else x
            if n == 0:
                off = add(off, scale(x, s.m.size(t)))
            elif t.k == "arr":
                t = t.e
                off = add(off, scale(x, s.m.size(t)))
            elif t.k == "struct":
                i = cv(x)
                off = add(off, C(s.m.field_off(t, i), 64))
                t = t.fs[i]
            else:
                raise AnalysisBroken("gep")
        if b.op == "ptr":
            return ptr(b.a[0], add(b.a[1], off))
        if isc(off) and cv(off) == 0:
            return b
        # pointer arithmetic on an opaque / possibly null pointer
        return mk("ptr", 64, "?%d" % b.id, off)

    def call_fn(s, name, args, st, path="", stack=()):
        f = s.m.funcs.get(name)
        if f is None:
            raise AnalysisBroken("function %s not found in %s" % (name, s.m.path))
        s.analysed.add(name)
        if len(stack) > 24:
            raise AnalysisBroken("call depth / recursion at " + name)
        fr = Frame(f, path + "/" + name, stack + (name,))
        env = {}
        for (pn, pt), a in zip(f.params, args):
            env[pn] = a
        outs = s.run(fr, f.order[0], None, env, st, frozenset())
        res = []
        for o in outs:
            if o[0] != "ret":
                raise AnalysisBroken("stray control flow in " + name)
            _, v, st2 = o
            # drop frame locals
            pre = fr.path + ":"
            ks = [k for k in st2.mem if k[0].startswith(pre)]
            bs = [k for k in st2.buf if k.startswith(pre)]
            if ks or bs:
                st2.thaw()
                for k in ks:
                    del st2.mem[k]
                for k in bs:
                    del st2.buf[k]
            res.append((st2, v))
        if len(res) > 1:
            res = s.merge_rets(res, st)
        return res

    def marks(s):
        return len(s.loops), len(s.viol), len(s.acc)

    def rollback(s, m):
        """forget what an unfinished loop iteration recorded"""
        del s.loops[m[0]:]
        del s.viol[m[1]:]
        del s.acc[m[2]:]

    def merge_rets(s, res, base):
        """merge return states that came from a pure call differing only by gating"""
        return res

    def phis(s, fr, blk, pred, env, st):
        b = fr.f.blocks[blk]
        upd = {}
        for ins in b.ins:
            if ins.op != "phi":
                break
            for v, p in ins.extra:
                if p == pred:
                    upd[ins.res] = s.val(fr, env, st, v, ins.ty)
                    break
            else:
                raise AnalysisBroken("phi edge")
        if upd:
            env = dict(env)
            env.update(upd)
        return env

    def run(s, fr, blk, pred, env, st, stops, at_header=False):
        outs = []
        work = [(blk, pred, env, st)]
        first = at_header
        while work:
            blk, pred, env, st = work.pop()
            s.nsteps += 1
            if s.nsteps > s.MAXSTATES:
                raise Budget("analysis budget exceeded in " + fr.f.name)
            if blk in stops and not first:
                outs.append(("stop", blk, pred, env, st))
                continue
            if blk in fr.cfg.loops and not first:
                for o in s.run_loop(fr, blk, pred, env, st):
                    if o[0] == "ret":
                        outs.append(o)
                    else:
                        work.append(o[1:])
                continue
            first = False
            if pred is not None:
                env = s.phis(fr, blk, pred, env, st)
            for o in s.run_block(fr, blk, env, st, stops):
                if o[0] == "at":
                    work.append(o[1:])
                else:
                    outs.append(o)
        return outs

    def run_block(s, fr, blk, env, st, stops):
        b = fr.f.blocks[blk]
        ins_list = b.ins
        res = []
        work = [(0, env, st)]
        owned = False
        while work:
            i, env, st = work.pop()
            env = dict(env)
            forked = False
            while True:
                ins = ins_list[i]
                i += 1
                op = ins.op
                if op == "phi":
                    continue
                if op == "br":
                    res.append(("at", ins.extra, blk, env, st))
                    break
                if op == "ret":
                    v = s.val(fr, env, st, ins.ops[0], ins.ty) if ins.ops else None
                    res.append(("ret", v, st))
                    break
                if op == "unreachable":
                    break
                if op == "cbr":
                    c = s.val(fr, env, st, ins.ops[0], ir.INT(1))
                    res.extend(s.branch(fr, blk, ins, c, env, st, stops))
                    break
                if op == "switch":
                    v = s.val(fr, env, st, ins.ops[0], ins.ty)
                    d, cases = ins.extra
                    cur = st
                    tg = {}
                    for k, t in cases:
                        c = eq(v, C(k, v.w))
                        dd = cur.decide(c)
                        if dd is False:
                            continue
                        if dd is True:
                            res.append(("at", t, blk, env, cur))
                            cur = None
                            break
                        a = cur.fork()
                        if a.assume(c, True):
                            res.append(("at", t, blk, env, a))
                        n = cur.fork()
                        if not n.assume(c, False):
                            cur = None
                            break
                        cur = n
                    if cur is not None:
                        res.append(("at", d, blk, env, cur))
                    break
                if op == "call":
                    outs = s.do_call(fr, ins, env, st)
                    if not outs:
                        break
                    if len(outs) == 1:
                        st, v = outs[0]
                        if ins.res:
                            env[ins.res] = v
                        continue
                    for st2, v in outs:
                        e2 = dict(env)
                        if ins.res:
                            e2[ins.res] = v
                        work.append((i, e2, st2))
                    break
                if op == "load" or op == "store":
                    pv = s.val(fr, env, st, ins.ops[-1], ir.PTR)
                    if pv.op == "ite":
                        # split on the gate
                        c = pv.a[0]
                        for v in (True, False):
                            n = st.fork()
                            if n.assume(c, v):
                                work.append((i - 1, env, n))
                        break
                    if pv.op != "ptr":
                        if isc(pv):
                            s.nullderef(st, fr, ins, "null pointer dereference")
                            break
                        s.note(st, fr, ins, "access through unknown pointer")
                        if op == "load":
                            env[ins.res] = s.fresh("unk", ins.ty.w or 64)
                        continue
                    obj = pv.a[0]
                    if obj in NULLABLE:
                        d = st.decide(nonnull(obj))
                        if d is not True:
                            n = st.fork()
                            if n.assume(nonnull(obj), False):
                                s.nullderef(n, fr, ins, "dereference of %s when it is NULL" % obj.strip("?"))
                            if not st.assume(nonnull(obj), True):
                                break
                    if op == "load":
                        env[ins.res] = st.simp(s.load(st, pv, 64 if ins.ty.k == "ptr" else ins.ty.w, fr, ins))
                    else:
                        v = s.val(fr, env, st, ins.ops[0], ins.ty)
                        s.store(st, pv, v, fr, ins)
                    continue
                env[ins.res] = s.pure(fr, ins, env, st)
        return res

    def nullderef(s, st, fr, ins, msg):
        s.viol.append(("nullderef", st, s.where(fr, ins), fr.stack, msg))

    def pure(s, fr, ins, env, st):
        op = ins.op
        if op == "alloca":
            obj = "%s:%s" % (fr.path, ins.res[1:])
            t = ins.ty
            if t.k == "arr" and t.e.k == "int" and t.e.w == 8:
                s.bufobjs[obj] = Content(("space", "uninit:" + obj, ()))
                s.sizes[obj] = C(t.n, 64)
                if obj in st.buf:
                    st.thaw()
                    del st.buf[obj]
            else:
                s.sizes[obj] = C(s.m.size(t), 64)
                for k in [k for k in st.mem if k[0] == obj]:
                    st.thaw()
                    del st.mem[k]
            if ins.extra is not None:
                s.note(st, fr, ins, "dynamic alloca")
            return ptr(obj)
        if op == "gep":
            b = s.val(fr, env, st, ins.ops[0], ir.PTR)
            return s.gep(fr, env, st, b, *ins.extra)
        V = lambda k, ty=None: s.val(fr, env, st, ins.ops[k], ty or ins.ty)
        if op == "bin":
            return s.binop(st, ins.extra, V(0), V(1))
        if op == "icmp":
            a, b = V(0), V(1)
            return icmp(ins.extra, a, b)
        if op == "zext":
            return zext(V(0, ins.extra), ins.ty.w)
        if op == "sext":
            return sext(V(0, ins.extra), ins.ty.w)
        if op == "trunc":
            return trunc(V(0, ins.extra), ins.ty.w)
        if op == "select":
            c = V(0, ir.INT(1))
            a, b = V(1), V(2)
            if isc(c):
                return a if cv(c) else b
            if a.op == "ptr" or b.op == "ptr":
                return mk("ite", 64, c, a, b) if c.op != "not" else mk("ite", 64, c.a[0], b, a)
            return ite(c, a, b)
        if op == "freeze" or op == "bitcast":
            return V(0, ins.extra if op == "bitcast" else None)
        if op in ("ptrtoint", "inttoptr"):
            return V(0, ins.extra)
        raise AnalysisBroken("instruction " + op)

    # -- branching -------------------------------------------------------------------
    def branch(s, fr, blk, ins, c, env, st, stops):
        t, f = ins.extra
        c = st.simp(c) if c.conds else c
        d = st.decide(c)
        if d is not None:
            return [("at", t if d else f, blk, env, st)]
        sT, sF = st.fork(), st.fork()
        okT, okF = sT.assume(c, True), sF.assume(c, False)
        if not okT and not okF:
            return []
        if not okT:
            return [("at", f, blk, env, sF)]
        if not okF:
            return [("at", t, blk, env, sT)]
        ip = fr.cfg.ipdom.get(blk)
        if ip is None or ip in fr.cfg.loops and blk in fr.cfg.loops[ip] and False:
            return [("at", t, blk, env, sT), ("at", f, blk, env, sF)]
        st2 = stops | {ip}
        oT = s.run(fr, t, blk, env, sT, st2)
        oF = s.run(fr, f, blk, env, sF, st2)
        mT = [o for o in oT if o[0] == "stop" and o[1] == ip]
        mF = [o for o in oF if o[0] == "stop" and o[1] == ip]
        rest = [o for o in oT + oF if not (o[0] == "stop" and o[1] == ip)]
        out = []
        for o in rest:
            out.append(o)
        # evaluate phis at ip before merging
        A = [self_phi(s, fr, o) for o in mT]
        B = [self_phi(s, fr, o) for o in mF]
        used = set()
        merged = []
        cand_a = [a for a in A if a[1].tr is st.tr]
        cand_b = [b for b in B if b[1].tr is st.tr]
        if len(cand_a) == 1 and len(cand_b) == 1:
            m = s.merge(c, cand_a[0], cand_b[0], st)
            if m is not None:
                merged.append(m)
                used = {id(cand_a[0]), id(cand_b[0])}
        for x in A + B:
            if id(x) not in used:
                merged.append(x)
        kind = "stop" if ip in stops else "at"
        for env2, stt in merged:
            out.append((kind, ip, None, env2, stt))
        return out

    def merge(s, c, a, b, base):
        ea, sa = a
        eb, sb = b
        if c.op == "not":
            c = c.a[0]
            ea, sa, eb, sb = eb, sb, ea, sa
        if sa.buf is not sb.buf:
            for k in set(sa.buf) | set(sb.buf):
                x, y = s.content(sa, k), s.content(sb, k)
                if x is not y and x != y:
                    return None
        diff = {}
        for k in set(sa.mem) | set(sb.mem):
            x, y = sa.mem.get(k), sb.mem.get(k)
            if x is y:
                continue
            w = (x if x is not None else y).w
            if x is None:
                x = s.load_init(k, w)
            if y is None:
                y = s.load_init(k, w)
            if x is y:
                diff[k] = x
                continue
            if x.w != y.w or x.op == "ptr" or y.op == "ptr":
                return None
            diff[k] = ite(c, x, y)
        if len(diff) > 14:
            return None
        env = dict(ea)
        for k in list(env):
            y = eb.get(k)
            x = env[k]
            if y is None:
                del env[k]
            elif x is not y:
                if x.w != y.w:
                    del env[k]
                elif x.op == "ptr" or y.op == "ptr" or (x.w == 64 and x.op == "ite" and x.a[1].op == "ptr"):
                    env[k] = mk("ite", 64, c, x, y)
                else:
                    env[k] = ite(c, x, y)
        r = State()
        r.mem = dict(sa.mem)
        r.mem.update(diff)
        r.buf = sa.buf
        r.facts = {k: v for k, v in sa.facts.items() if sb.facts.get(k) == v}
        r.frozen = False
        r.buf = dict(sa.buf)
        ia = [(k, v) for k, v in sa.facts.items() if k not in r.facts and k is not c]
        ib = [(k, v) for k, v in sb.facts.items() if k not in r.facts and k is not c]
        imps = base.imps
        for x in sa.imps:
            if x not in imps and x in sb.imps:
                imps = imps + (x,)
        if ia:
            imps = imps + ((c, True, tuple(ia)),)
        if ib:
            imps = imps + ((c, False, tuple(ib)),)
        for side, g in ((sa, c), (sb, bnot(c))):
            for x in side.imps:
                if x not in imps and len(imps) < 48:
                    k = band(g, x[0] if x[1] else bnot(x[0]))
                    if not isc(k):
                        imps = imps + ((k, True, x[2]),)
        r.imps = imps
        r.clauses = tuple(x for x in sa.clauses if x in sb.clauses)
        r.tr, r.n = sa.tr, sa.n
        return (env, r)

    def load_init(s, k, w):
        v = s.objinit(k[0], k[1], w)
        return v if v is not None else s.initval(k[0], k[1], w)

    # -- calls --------------------------------------------------------------------
    def do_call(s, fr, ins, env, st):
        name, tys, raw = ins.extra
        if name is None:
            s.note(st, fr, ins, "indirect call")
            raise AnalysisBroken("indirect call in " + fr.f.name)
        args = [s.val(fr, env, st, v, ty) for v, ty in zip(ins.ops, tys)]
        s.callsites += 1
        if name.startswith("llvm.memcpy") or name.startswith("llvm.memmove") or name in ("memcpy", "memmove"):
            return s.split_ptrs(st, args, (0, 1), lambda st, a: s.do_memcpy(fr, ins, st, a))
        if name.startswith("llvm.memset") or name == "memset":
            return s.split_ptrs(st, args, (0,), lambda st, a: s.do_memset(fr, ins, st, a))
        if name.startswith("llvm.lifetime") or name.startswith("llvm.assume") or name.startswith("llvm.expect"):
            return [(st, args[0] if args and ins.res else None)]
        m = re_minmax(name)
        if m:
            a, b = args[:2]
            lt = {"umin": ult(a, b), "umax": ult(b, a), "smin": slt(a, b), "smax": slt(b, a)}[m]
            return [(st, ite(lt, a, b))]
        if name == "memcmp" or name.startswith("memcmp"):
            return s.do_memcmp(fr, ins, st, args)
        if name in s.externs:
            return s.externs[name](s, fr, ins, st, args)
        if name in s.m.funcs:
            return s.call_fn(name, args, st, "%s@%s" % (fr.path, ins.res or ins.dbg), fr.stack)
        h = s.externs.get("*")
        if h:
            return h(s, fr, ins, st, args, name)
        raise AnalysisBroken("call to unknown function " + name)

    def split_ptrs(s, st, args, idx, k):
        for i in idx:
            if args[i].op == "ite":
                out = []
                for v in (True, False):
                    n = st.fork()
                    if n.assume(args[i].a[0], v):
                        a2 = list(args)
                        a2[i] = args[i].a[1 if v else 2]
                        out.extend(s.split_ptrs(n, a2, idx, k))
                return out
        return k(st, args)

    def chk_null(s, fr, ins, st, p):
        if p.op == "ptr" and p.a[0] in NULLABLE:
            d = st.decide(nonnull(p.a[0]))
            if d is not True:
                n = st.fork()
                if n.assume(nonnull(p.a[0]), False):
                    s.nullderef(n, fr, ins, "memory operation on %s when it is NULL" % p.a[0].strip("?"))
                return st.assume(nonnull(p.a[0]), True)
        if isc(p):
            s.nullderef(st, fr, ins, "memory operation on NULL")
            return False
        return True

    def do_memcpy(s, fr, ins, st, args):
        d, sr, n = args[:3]
        if not (s.chk_null(fr, ins, st, d) and s.chk_null(fr, ins, st, sr)):
            return []
        if d.op != "ptr" or sr.op != "ptr":
            s.note(st, fr, ins, "memcpy through unknown pointer")
            return [(st, d)]
        n = zext(n, 64)
        st.thaw()
        if s.is_buf(d.a[0]) and s.is_buf(sr.a[0]):
            sc = s.content(st, sr.a[0])
            s.access(st, sr.a[0], sr.a[1], n, False, ins, fr)
            s.access(st, d.a[0], d.a[1], n, True, ins, fr)
            c = s.content(st, d.a[0])
            if not sc.writes and sc.base[0] == "space":
                st.buf[d.a[0]] = s.wrrange(st, c, d.a[1], n, "src", (sc.base[1], sc.base[2], sr.a[1]))
            else:
                st.buf[d.a[0]] = s.wrrange(st, c, d.a[1], n, "cpy", (sc, sr.a[1]))
            return [(st, d)]
        if isc(n) and not s.is_buf(d.a[0]) and not s.is_buf(sr.a[0]) and isc(d.a[1]) and isc(sr.a[1]):
            # struct copy
            for (o, off), v in list(st.mem.items()):
                if o == sr.a[0] and cv(sr.a[1]) <= off < cv(sr.a[1]) + cv(n):
                    st.mem[(d.a[0], cv(d.a[1]) + off - cv(sr.a[1]))] = v
            s.note(st, fr, ins, "struct copy")
            return [(st, d)]
        if isc(n) and cv(n) in (1, 2, 4, 8):
            # scalar <-> buffer copy (type punning): native little-endian
            if s.is_buf(sr.a[0]) and isc(d.a[1]):
                v = s.load(st, sr, cv(n) * 8, fr, ins)
                st.mem[(d.a[0], cv(d.a[1]))] = mk("native", cv(n) * 8, v)
                s.note(st, fr, ins, "native-endian copy")
                return [(st, d)]
        s.note(st, fr, ins, "memcpy shape")
        if s.is_buf(d.a[0]):
            s.access(st, d.a[0], d.a[1], n, True, ins, fr)
            st.buf[d.a[0]] = s.wrrange(st, s.content(st, d.a[0]), d.a[1], n, "src", (s.fresh("memcpy", 8).a[0], (), C(0, 64)))
        return [(st, d)]

    def do_memset(s, fr, ins, st, args):
        d, v, n = args[:3]
        if not s.chk_null(fr, ins, st, d):
            return []
        if d.op != "ptr":
            s.note(st, fr, ins, "memset through unknown pointer")
            return [(st, d)]
        v = trunc(v, 8)
        n = zext(n, 64)
        st.thaw()
        obj = d.a[0]
        if s.is_buf(obj):
            s.access(st, obj, d.a[1], n, True, ins, fr)
            st.buf[obj] = s.wrrange(st, s.content(st, obj), d.a[1], n, "fill", v)
            return [(st, d)]
        if isc(n) and isc(d.a[1]) and isc(v):
            h = s.hooks.get("structset")
            if h and h(s, st, obj, cv(d.a[1]), cv(n), cv(v)):
                return [(st, d)]
        s.note(st, fr, ins, "memset of non-buffer")
        return [(st, d)]

    def do_memcmp(s, fr, ins, st, args):
        a, b, n = args[:3]
        if a.op == "ptr" and b.op == "ptr" and isc(n) and cv(n) <= 16:
            c = TRUE
            for k in range(cv(n)):
                bs = []
                for p in (a, b):
                    if s.is_buf(p.a[0]):
                        bs.append(s.rdbyte(st, s.content(st, p.a[0]), add(p.a[1], C(k, 64))))
                    else:
                        bs.append(s.globbyte(p, k))
                c = band(c, eq(bs[0], bs[1]))
            return [(st, ite(c, C(0, 32), C(1, 32)))]
        return [(st, s.fresh("memcmp", 32))]

    def globbyte(s, p, k):
        g = s.m.globs.get(p.a[0].lstrip("@"))
        if g is not None and isc(p.a[1]) and g.init and g.init[0] == "agg":
            return C(g.init[1][cv(p.a[1]) + k][1], 8)
        return s.fresh("glob", 8)

    # -- loops ------------------------------------------------------------------------
    def run_loop(s, fr, hdr, pred, env, st):
        body = fr.cfg.loops[hdr]
        exits = set()
        for b in body:
            for x in fr.f.blocks[b].succ:
                if x not in body:
                    exits.add(x)
        stops = frozenset(exits | {hdr})
        if pred is not None:
            env = s.phis(fr, hdr, pred, env, st)
        phir = [ins for ins in fr.f.blocks[hdr].ins if ins.op == "phi"]
        lname = "%s.%s" % (fr.path, hdr[1:])
        hins = fr.f.blocks[hdr].ins
        loc = ("", 0)
        for x in hins + [y for b in sorted(body) for y in fr.f.blocks[b].ins]:
            if x.dbg and s.where(fr, x)[1]:
                loc = s.where(fr, x)
                break
        ck = (fr.path, hdr)
        key0 = s.loopcache.get(ck, (frozenset(), frozenset()))
        modm = set(k for k in key0[0] if k in st.mem or not k[0].startswith("/"))
        modb = set(key0[1])
        forms = {}        # phi key -> ('inv',)|('step',c)|('eq',key)|('bits',...)|('space',...)
        dropped = set()   # candidate facts dropped (by identity of source)
        phir_keys = [("r", x.res) for x in phir]
        wide = set()
        tries = 0
        segs = {}
        restart = False
        mark = s.marks()
        bufform = {}
        fc = s.formcache.get(ck)
        seeded = False
        if fc is not None and fc[2] == frozenset(modm) and fc[3] == frozenset(modb):
            seeded = True
            forms = dict(fc[0])
            wide = set(fc[1])
            bufform = dict(fc[4])
        while True:
            if seeded and restart:
                seeded = restart = False
                forms, wide, bufform, dropped = {}, set(), {}, set()
            tries += 1
            s.rollback(mark)
            if tries > 12:
                s.note(st, fr, hins[0], "loop did not stabilise: " + lname)
                break
            s.uid += 1
            rid = s.uid
            ithi = s.opts.get("itmax", 1 << 24)
            for L in forms.get("#ub", ()):
                if isinstance(L, UB) and (L, "u") not in dropped:
                    ithi = min(ithi, max(bounds(L.R)[1] + 1, 0))
            it = S("it#%d" % rid, 32, 0, ithi)
            rec = LoopRec(lname, loc)
            rec.it = it
            S0 = st.fork()
            S0.thaw()
            S0._mp = None
            ents = {}
            for x in phir:
                ents[("r", x.res)] = env[x.res]
            for k in modm:
                v = st.mem.get(k)
                if v is None:
                    v = s.load_init(k, s.modw.get(k, 32)) if not k[0].startswith("/") else None
                if v is None:
                    continue
                ents[("m", k)] = st.simp(v)
            env0 = dict(env)
            val = {}
            order = sorted(ents, key=repr)
            shph = 0
            if "phishape" in s.opts:
                for k in order:
                    if forms.get(k) is None and k not in wide and ents[k].op != "ptr" and ents[k].w != 8:
                        shp = s.opts["phishape"](s, st, k, ents[k])
                        if shp is not None:
                            shph = max(shph, shp[2])
            for k in order:
                e = ents[k]
                fm = forms.get(k)
                if fm is None or fm[0] == "opaque":
                    if e.op == "ptr":
                        w = ("phi", 64)
                        p = S("phi.%s#%d" % (nm(k), rid), 64, 0, 1 << 40)
                        val[k] = ptr(e.a[0], p)
                        continue
                    if e.w == 8 and fm is None:
                        # flag words are generalised bit by bit
                        bs = tuple(mk("s", 1, "phi.%s.b%d#%d" % (nm(k), j, rid)) for j in range(8))
                        val[k] = bitsv(bs)
                        continue
                    shp = s.opts.get("phishape", lambda *a: None)(s, st, k, e) if k not in wide else None
                    if shp is not None:
                        off, lo, hi = shp
                        q = S("phi.%s#%d" % (nm(k), rid), e.w, lo, hi)
                        rec.shapes[k] = (q, off)
                        val[k] = addk(q, off)
                        continue
                    lo, hi = bounds(e)
                    pr = s.opts.get("phirange", lambda *a: None)(s, st, e) if k not in wide else None
                    if pr is not None:
                        lo, hi = pr
                    elif k in wide:
                        lo, hi = (0, M(e.w))
                    elif e.w == 32 and k[0] == "r" and shph and hi <= shph:
                        # searched together with a bounded variable
                        lo, hi = 0, shph
                    elif e.w == 32 and hi < (1 << 30):
                        lo, hi = 0, (1 << 30) - 1
                    val[k] = S("phi.%s#%d" % (nm(k), rid), e.w, lo, hi)
                elif fm[0] == "inv":
                    val[k] = e
                elif fm[0] == "step":
                    step = fm[1]
                    if e.op == "ptr":
                        val[k] = ptr(e.a[0], add(e.a[1], scale(zext(it, 64), step)))
                    else:
                        zi = zext(it, e.w) if e.w >= 32 else trunc(it, e.w)
                        val[k] = add(e, scale(zi, step))
                elif fm[0] == "shr":
                    val[k] = div(e, toZ(it))
                elif fm[0] == "shl":
                    val[k] = shl(e, toZ(it))
                elif fm[0] == "aff":
                    val[k] = addk(shl(addk(e, fm[1]), toZ(it)), -fm[1])
                elif fm[0] == "bits":
                    bs = tuple(fbit(e, j) if q == "e" else
                               mk("s", 1, "phi.%s.b%d#%d" % (nm(k), j, rid))
                               for j, q in enumerate(fm[1]))
                    if all(q == "e" for q in fm[1]):
                        val[k] = e
                    else:
                        val[k] = bitsv(bs)
            for k in order:
                fm = forms.get(k)
                if fm is not None and fm[0] == "eq":
                    val[k] = val[fm[1]]
            for k in order:
                if k[0] == "r":
                    env0[k[1]] = val[k]
                else:
                    S0.mem[k[1]] = val[k]
            # buffers
            for o in modb:
                e = s.content(st, o)
                bf = bufform.get(o)
                if bf is None or bf[0] == "opaque":
                    S0.buf[o] = Content(("opaque", "%s#%d" % (o.split("/")[-1], rid)))
                elif bf[0] == "space":
                    S0.buf[o] = Content(("space", bf[1], tuple(val[q] if isinstance(q, tuple) else q for q in bf[2])))
                elif bf[0] == "seg":
                    sg = Seg(rec, bf[2], bf[3])
                    sg.n = o
                    cnt = zext(it, 64)
                    if bf[2] >= 0:
                        lo = bf[1]
                    else:
                        lo = sub(add(bf[1], C(-bf[2], 64)), scale(cnt, -bf[2]))
                    ln = scale(cnt, abs(bf[2]))
                    S0.buf[o] = Content(e.base, e.writes + ((lo, ln, "seg", sg),))
            # inductive candidate facts
            cand = []
            subm = {}
            for k in order:
                if val[k] is not ents[k] and ents[k].op in ("s", "word", "fn", "div", "mod", "ite", "lin") and ents[k].w > 1 and val[k].op != "ptr":
                    if ents[k] not in subm:
                        subm[ents[k]] = (k, val[k])
            if subm:
                mp = {a: b[1] for a, b in subm.items()}
                # substitute one variable at a time and all at once
                for f, v in list(st.facts.items()):
                    al = subterms(f)
                    hit = [a for a in mp if a in al]
                    if not hit:
                        continue
                    g = subst(f, {a: mp[a] for a in hit})
                    if g is not f and not isc(g) and (f, "x") not in dropped:
                        cand.append(((f, "x"), g, v))
            for k in order:
                # a budget counted down never grows, one counted up never shrinks
                if k[0] == "r" and val[k].op == "s" and val[k].w == 32 and isc(ents[k]) and "phishape" not in s.opts:
                    z, c0 = toZs(val[k]), cen(cv(ents[k]), 32)
                    for nm2, g in (("le", addk(neg(z), c0)), ("ge", addk(z, -c0))):
                        if (((k, nm2), "x")) not in dropped:
                            cand.append((((k, nm2), "x"), ge0(g), True))
            for src, f, v in s.opts.get("loopcands", lambda *a: [])(s, st, S0, ents, val):
                if (src, "o") in dropped:
                    continue
                cand.append(((src, "o"), f, v))
            for L in forms.get("#ub", ()):
                if (L, "u") in dropped:
                    continue
                g = L(it)
                e0 = L(C(0, 32))
                if not (isc(e0) and cv(e0)) and st.decide(e0) is not True and \
                        s.opts.get("prove", lambda st, g: st.decide(g))(st, e0) is not True:
                    dropped.add((L, "u"))
                    continue
                if not isc(g):
                    cand.append(((L, "u"), g, True))
            okc = []
            for src, g, v in cand:
                d = S0.decide(g)
                if d is None:
                    if S0.assume(g, v):
                        okc.append((src, g, v))
                elif d == v:
                    okc.append((src, g, v))
            head_mem, head_buf = S0.mem, S0.buf
            ev = Event("LOOP", (), None, S0, loc, fr.stack, rec)
            S0.add(ev)
            rec.entry, rec.head = st, S0
            hstate = S0.fork()
            rec.head = hstate
            rec.headenv = env0
            outs = s.run(fr, hdr, None, env0, S0, stops, at_header=True)
            backs, ex = [], []
            for o in outs:
                if o[0] == "stop" and o[1] == hdr:
                    e2 = o[3] if o[2] is None else s.phis(fr, hdr, o[2], o[3], o[4])
                    split = [(e2, o[4])]
                    for x in phir:
                        # an outcome chosen between two constants
                        v = e2[x.res]
                        if v.op == "ite" and isc(v.a[1]) and isc(v.a[2]):
                            fk = []
                            for e3, b3 in split:
                                for val3, pol in ((v.a[1], True), (v.a[2], False)):
                                    b4 = b3.fork()
                                    if b4.assume(v.a[0], pol):
                                        e4 = dict(e3)
                                        e4[x.res] = val3
                                        fk.append((e4, b4))
                            split = fk[:8] if len(fk) <= 8 else split
                    lv = [leaves(s, fr, hdr, e3, b3, body, [x.res for x in phir]) for e3, b3 in split]
                    if not any(lv):
                        backs.append((e2, o[4]))
                        continue
                    for q, (e3, b3) in zip(lv, split):
                        if q:
                            # a flag decides that there is no next time around
                            ex.extend(s.run(fr, hdr, None, e3, b3, stops, at_header=True))
                        else:
                            backs.append((e3, b3))
                else:
                    ex.append(o)
            # discover modified locations
            nm0, nb0 = len(modm), len(modb)
            for e2, b in backs:
                for k in b.mem:
                    if k[0].startswith(fr.path + "@"):
                        continue
                    if b.mem[k] is not head_mem.get(k, None):
                        if k not in head_mem:
                            init = s.load_init(k, b.mem[k].w) if not k[0].startswith("/") else None
                            if init is b.mem[k]:
                                continue
                        if ("m", k) not in val:
                            s.modw[k] = b.mem[k].w
                            if k not in st.mem and k[0].startswith("/"):
                                # local first assigned inside the loop: dead at header
                                continue
                            modm.add(k)
                for o in b.buf:
                    hc = head_buf.get(o, s.bufobjs.get(o))
                    if b.buf[o] is not hc and b.buf[o] != hc:
                        if o not in modb:
                            modb.add(o)
            if len(modm) != nm0 or len(modb) != nb0:
                continue
            # classify
            changed = False
            bv = {}
            for k in order:
                vs = []
                for e2, b in backs:
                    if k[0] == "r":
                        v = e2.get(k[1])
                    else:
                        v = b.mem.get(k[1], val[k])
                    vs.append(b.simp(v) if v is not None and v.conds else v)
                bv[k] = vs
            for k in order:
                fm = forms.get(k)
                x, e, vs = val[k], ents[k], bv[k]
                if fm is None:
                    nf = classify(x, e, vs, it)
                    if nf is not None:
                        forms[k] = nf
                        changed = True
                    else:
                        if x.op == "bits":
                            forms[k] = ("opaque",)
                            changed = True
                        forms.setdefault(k, ("opaque",)) if False else None
                elif fm[0] in ("step", "shr", "shl", "aff", "inv", "bits", "eq"):
                    if not verify(fm, x, e, vs, it, val, bv, forms, k):
                        forms[k] = ("opaque",)
                        changed = restart = True
            # congruent phis
            if not changed:
                grp = {}
                for k in order:
                    fm = forms.get(k)
                    if fm is None and val[k].op == "s":
                        grp.setdefault((ents[k], val[k].w), []).append(k)
                for g in grp.values():
                    if len(g) > 1:
                        part = {}
                        m1 = {val[x]: val[g[0]] for x in g}
                        for k in g:
                            sig = tuple(subst(v, m1) for v in bv[k])
                            part.setdefault(sig, []).append(k)
                        for sig, ks in part.items():
                            for k in ks[1:]:
                                forms[k] = ("eq", ks[0])
                                changed = True
            # ranges of opaque phis
            for k in order:
                x = val[k]
                if x.op == "s" and forms.get(k) in (None, ("opaque",)):
                    lo, hi = SYMRANGE.get(x, (0, M(x.w)))
                    for v in bv[k]:
                        bl, bh = bounds(v)
                        if (bl < lo or bh > hi) and k not in wide and not (
                                s.in_range(backs[bv[k].index(v)][1], v, lo, hi)):
                            # maybe provable from the facts of that path
                            wide.add(k)
                            changed = True
            for k, (q, off) in rec.shapes.items():
                if forms.get(k) is not None or k in wide:
                    continue
                lo, hi = SYMRANGE.get(q, (0, M(q.w)))
                for (e2, b), v in zip(backs, bv[k]):
                    if v is val[k]:
                        continue
                    z = addk(toZs(v), -off)
                    pv = s.opts.get("prove", lambda st, g: st.decide(g))
                    if not (pv(b, ge0(addk(z, -lo))) is True and pv(b, ge0(addk(neg(z), hi))) is True):
                        wide.add(k)
                        changed = True
                        break
            # buffers
            phichg = changed
            for o in sorted(modb):
                bf = bufform.get(o)
                hc = head_buf[o]
                bcs = [b.buf.get(o, hc) for e2, b in backs]
                ent = s.content(st, o)
                if bf is None:
                    if phichg:
                        continue   # the offsets are not in their final form yet
                    nb = s.classify_buf(o, ent, hc, bcs, it, ents, val, bv, backs, rec)
                    bufform[o] = nb
                    changed = True
                elif bf[0] == "space":
                    for (e2, b), c in zip(backs, bcs):
                        if c is hc or c == hc:
                            want = tuple(val[q] if isinstance(q, tuple) else q for q in bf[2])
                        elif not c.writes and c.base[0] == "space" and c.base[1] == bf[1]:
                            want = c.base[2]
                        else:
                            bufform[o] = ("opaque",)
                            changed = True
                            break
                        i = backs.index((e2, b))
                        nxt = tuple(bv[q][i] if isinstance(q, tuple) else q for q in bf[2])
                        if any(b.simp(x1) is not b.simp(x2) for x1, x2 in zip(want, nxt)):
                            bufform[o] = ("opaque",)
                            changed = True
                            break
                elif bf[0] == "seg":
                    alts = s.seg_alts(o, hc, bcs, it, bf, ent, [b for e2, b in backs])
                    if alts is None:
                        bufform[o] = ("opaque",)
                        changed = True
                    else:
                        rec.segalts[o] = alts
            # upper bound candidates on the iteration count
            if not changed and "#ub" not in forms:
                ubs = ub_cands(backs, it)
                forms["#ub"] = ubs
                if ubs:
                    changed = True
            elif not changed and "#ub2" not in forms and any(fm and fm[0] == "aff" for fm in forms.values() if type(fm) is tuple):
                # what the back edges say about 2^it, now that it is bounded
                forms["#ub2"] = pbs = tuple(x for x in ub_cands(backs, it) if isinstance(x, PB))
                if pbs:
                    forms["#ub"] = forms["#ub"] + pbs
                    changed = True
            # inductive facts
            nd = len(dropped)
            for src, g, v in okc:
                mp = {}
                for i, (e2, b) in enumerate(backs):
                    mp = {}
                    for k in order:
                        if k in rec.shapes and val[k].op == "lin" and bv[k][i] is not val[k]:
                            mp[rec.shapes[k][0]] = addk(bv[k][i], -rec.shapes[k][1])
                        elif val[k].op == "s" and bv[k][i] is not val[k]:
                            mp[val[k]] = bv[k][i]
                        elif val[k].op == "bits":
                            for j, q in enumerate(val[k].a[0]):
                                if q.op == "s":
                                    mp[q] = fbit(bv[k][i], j)
                    mp[it] = addk(it, 1)
                    if src[1] == "u":
                        mp = {it: addk(it, 1)}
                        g2 = src[0](addk(it, 1))
                    else:
                        g2 = subst(g, mp)
                    g2 = b.simp(g2) if g2.conds else g2
                    d = b.decide(g2)
                    if d is None:
                        d = s.opts.get("prove", lambda st, g: st.strengthen().decide(g))(b, g2 if v else bnot(g2))
                        d = v if d is True else None
                    if d != v:
                        dropped.add(src)
                        break
            if len(dropped) != nd:
                changed = True
            rec.backs = [(e2, b) for e2, b in backs]
            rec.exits = ex
            rec.phis = {k: (forms.get(k), val[k], ents[k], bv[k]) for k in order}
            rec.bufforms = dict(bufform)
            if not changed:
                rec.stable = True
                break
        s.loopcache[ck] = (frozenset(modm), frozenset(modb))
        if rec.stable:
            s.formcache[ck] = ({k: v for k, v in forms.items() if k not in ("#ub", "#ub2")}, frozenset(wide),
                               frozenset(modm), frozenset(modb),
                               {k: v for k, v in bufform.items() if v[0] == "opaque"})
        s.loops.append(rec)
        res = []
        for o in rec.exits:
            if o[0] == "ret":
                res.append(o)
            else:
                res.append(("at", o[1], o[2], o[3], o[4]))
        return res

    modw = {}

    def classify_buf(s, o, ent, hc, bcs, it, ents, val, bv, backs, rec):
        # (a) whole content comes from a space keyed by a phi
        same = [c is hc or c == hc for c in bcs]
        if not ent.writes and ent.base[0] == "space" and len(ent.base[2]) == 1:
            ok = True
            for c, sm in zip(bcs, same):
                if sm:
                    continue
                if c.writes or c.base[0] != "space" or c.base[1] != ent.base[1] or len(c.base[2]) != 1:
                    ok = False
            if ok:
                k0 = ent.base[2][0]
                for k, e in ents.items():
                    if e is k0 and val[k].op == "s":
                        good = True
                        for i, (c, sm) in enumerate(zip(bcs, same)):
                            want = val[k] if sm else c.base[2][0]
                            if bv[k][i] is not want:
                                good = False
                        if good:
                            return ("space", ent.base[1], (k,))
        # single full overwrite by an external read: content(space) with writes 'src' covering
        # (b) element writes at affine offsets
        shp = None
        for c, sm in zip(bcs, same):
            if sm:
                continue            # this way round leaves the element as it was
            if c.base != hc.base:
                return ("opaque",)
            new = c.writes[len(hc.writes):]
            if c.writes[:len(hc.writes)] != hc.writes:
                return ("opaque",)
            g = group_writes(new)
            if g is None or len(g) != 1:
                return ("opaque",)
            off, size, wv = g[0]
            a = subst(off, {it: C(0, 32)})
            b = subst(off, {it: C(1, 32)})
            st = sub(b, a)
            if not isc(st):
                return ("opaque",)
            step = cen(cv(st), 64)
            if abs(step) != size or add(a, scale(zext(it, 64), step)) is not off:
                return ("opaque",)
            if shp is None:
                shp = (a, step, size)
            elif shp != (a, step, size):
                return ("opaque",)
        if shp is None:
            return ("opaque",)
        return ("seg",) + shp

    def seg_alts(s, o, hc, bcs, it, bf, ent=None, sts=()):
        alts = []
        for i, c in enumerate(bcs):
            if c is hc or c == hc:
                off = add(bf[1], scale(zext(it, 64), bf[2]))
                if ent is None or bf[3] not in (1, 4):
                    return None
                rd = s.rd32 if bf[3] == 4 else s.rdbyte
                alts.append((i, rd(sts[i], Content(ent.base, ent.writes), off)))
                continue
            new = [w for w in c.writes if w not in hc.writes]
            if c.base != hc.base or any(w not in c.writes for w in hc.writes):
                return None
            g = group_writes(tuple(new))
            if g is None or len(g) != 1:
                return None
            off, size, wv = g[0]
            if off is not add(bf[1], scale(zext(it, 64), bf[2])) or size != bf[3]:
                return None
            alts.append((i, wv))
        return alts


def leaves(s, fr, hdr, env, st, body, phis):
    """do constants assigned to the loop's variables, alone, settle that
    the next visit of the header leaves the loop?"""
    start = {x: env[x] for x in phis if x in env and env[x].op != "ptr" and isc(env[x])}
    if not start:
        return False
    inner = set(i.res for b in body for i in fr.f.blocks[b].ins if i.res)
    seen = [0]

    def get(v, ty, loc):
        if v[0] == "l":
            x = loc.get(v[1]) if v[1] in inner else env.get(v[1])
            return x if x is not None and x.op != "ptr" and isc(x) else None
        x = s.val(fr, env, st, v, ty)
        return x if x.op != "ptr" and isc(x) else None

    def walk(blk, pred, loc):
        seen[0] += 1
        if blk not in body:
            return True
        if seen[0] > 24 or (blk == hdr and pred is not None) or len(loc) > 60:
            return False
        loc = dict(loc)
        new = {}
        for ins in fr.f.blocks[blk].ins:
            op = ins.op
            if op == "phi":
                if pred is not None:
                    for v, p in ins.extra:
                        if p == pred:
                            new[ins.res] = get(v, ins.ty, loc)
                elif ins.res not in loc:
                    new[ins.res] = None
                continue
            loc.update(new)
            new = {}
            if op == "br":
                return walk(ins.extra, blk, loc)
            if op == "cbr":
                c = get(ins.ops[0], ir.INT(1), loc)
                t, f = ins.extra
                if c is not None:
                    return walk(t if cv(c) else f, blk, loc)
                return walk(t, blk, loc) and walk(f, blk, loc)
            if op == "icmp" or op == "bin" and ins.extra in ("xor", "and", "or"):
                a, b = get(ins.ops[0], ins.ty, loc), get(ins.ops[1], ins.ty, loc)
                if op == "bin" and ins.extra == "and" and ((a is not None and not cv(a)) or (b is not None and not cv(b))):
                    r = C(0, ins.ty.w)
                elif a is None or b is None:
                    r = None
                else:
                    r = icmp(ins.extra, a, b) if op == "icmp" else s.binop(st, ins.extra, a, b)
                loc[ins.res] = r
            elif op in ("zext", "sext", "trunc"):
                a = get(ins.ops[0], ins.extra, loc)
                loc[ins.res] = None if a is None else {"zext": zext, "sext": sext, "trunc": trunc}[op](a, ins.ty.w)
            else:
                return False
        return False
    return walk(hdr, None, start)


def quarter(idx, w=32):
    """slot number of a byte offset within the pointers"""
    c, d = tolin(idx)
    if idx.w and all(cen(k, idx.w) % 4 == 0 for k in d.values()) and cen(c, idx.w) % 4 == 0:
        r = C(cen(c, idx.w) // 4, w)
        for m, k in d.items():
            r = add(r, scale(trunc(m, w) if w < m.w else m, cen(k, idx.w) // 4))
        return r
    q = div(idx, C(2, 0))
    return trunc(q, w) if w < q.w else q


def low2(off):
    """the two low bits of an offset whose varying part is a multiple of 4"""
    c, d = tolin(off)
    if off.w and all(k % 4 == 0 for k in d.values()):
        return c % 4
    return tolin(toZ(off))[0] % 4


def subterms(t):
    seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        st.extend(kids(x))
    return seen


def extra_cand(forms):
    return ()


def ub_cands(backs, it):
    """bounds on the iteration counter implied by every back edge: L(it) >= 0
    with L decreasing in it; candidate L(it-1) >= 0 at the header"""
    zi = toZ(it)
    sets = []
    for e2, b in backs:
        cur = {}
        for F in b._ineqs():
            k = tolin(F)[1].get(zi, 0)
            if k == -1:
                cur[sub(F, scale(zi, -1))] = True
            elif k == 0 and F.op == "lin" and any(m.op == "mul" and m.a[0] is not None and zi in subterms(m.a[0])
                                                  for m in tolin(F)[1]):
                cur[(F,)] = True
        sets.append(cur)
    if not sets:
        return ()
    out, ex = [], []
    for R in sets[0]:
        if not all(R in x for x in sets[1:]):
            continue
        if type(R) is tuple:
            if len(ex) < 3:
                ex.append(PB(R[0], it))
        elif zi not in subterms(R):
            out.append(UB(R))
    return tuple(out[:4] + ex)


class UB:
    """R + 1 - it >= 0"""

    def __init__(s, R):
        s.R = R

    def __call__(s, it):
        return ge0(addk(sub(s.R, toZ(it)), 1))


class PB:
    """what held when the last iteration ended: it = 0 or F(it - 1) >= 0"""

    def __init__(s, F, it):
        s.F, s.it = F, it

    def __call__(s, t):
        if isc(t) and cv(t) == 0:
            return TRUE
        F = subst(s.F, {toZ(s.it): addk(toZ(t), -1)})
        c, d = tolin(F)
        r = C(c, 0)
        for m, k in d.items():
            # 2k * 2^(x-1) = k * 2^x
            n = -tolin(m.a[0])[0] if m.op == "mul" and m.a[0] is not None else 0
            if n > 0 and k % (1 << n) == 0:
                q = p2(addk(m.a[0], n), 0)
                for f in m.a[1]:
                    q = mul(q, f)
                r = add(r, scale(q, k >> n))
            else:
                r = add(r, scale(m, k))
        return bor(eq0(t), ge0(r))


def group_writes(ws):
    """consecutive single-byte writes -> [(offset, size, word term)]"""
    if not ws:
        return None
    if len(ws) == 1 and ws[0][2] in ("b",):
        return [(ws[0][0], 1, ws[0][3])]
    if len(ws) == 4 and all(w[2] == "b" for w in ws):
        base = None
        byk = {}
        w0 = ws[0][0]
        ks = []
        for w in ws:
            d = sub(w[0], w0)
            if not isc(d):
                return None
            ks.append((cen(cv(d), 64), w))
        ks.sort(key=lambda x: x[0])
        if [k - ks[0][0] for k, w in ks] != [0, 1, 2, 3]:
            return None
        r = None
        for j, (k, w) in enumerate(ks):
            z = zext(w[3], 32)
            r = z if r is None else bor2(r, shl(z, C(8 * j, 0)))
        return [(ks[0][1][0], 4, r)]
    if len(ws) == 1 and ws[0][2] == "fill" and isc(ws[0][1]) and isc(ws[0][3]):
        n = cv(ws[0][1])
        if n == 4:
            return [(ws[0][0], 4, C(cv(ws[0][3]) * 0x01010101, 32))]
    return None


def nm(k):
    if k[0] == "r":
        return k[1].strip("%")
    return "%s.%d" % (k[1][0].split("/")[-1], k[1][1])


def classify(x, e, vs, it):
    if not vs:
        return ("inv",)
    if all(v is x for v in vs):
        return ("inv",)
    if x.op == "ptr":
        if all(v.op == "ptr" and v.a[0] == x.a[0] for v in vs):
            ds = [sub(v.a[1], x.a[1]) for v in vs]
            if isc(ds[0]) and all(d is ds[0] for d in ds):
                return ("step", cen(cv(ds[0]), 64))
        return ("opaque",)
    if all(v is e for v in vs):
        return ("inv",)
    if x.op == "bits":
        # try arithmetic step on the machine value is not possible on bits
        pat = []
        for j in range(8):
            xb, eb = x.a[0][j], fbit(e, j)
            pat.append("e" if all(fbit(v, j) is xb or fbit(v, j) is eb for v in vs) else "v")
        if all(p == "v" for p in pat):
            return ("opaque",)
        return ("bits", tuple(pat))
    if x.op == "s":
        ds = [sub(v, x) for v in vs]
        if isc(ds[0]) and all(d is ds[0] for d in ds):
            return ("step", cen(cv(ds[0]), x.w))
        if all(v is div(x, C(1, 0)) for v in vs):
            return ("shr",)
        if all(v is scale(x, 2) for v in vs):
            return ("shl",)
        d2 = [sub(v, scale(x, 2)) for v in vs]
        if isc(d2[0]) and all(d is d2[0] for d in d2):
            return ("aff", cv(d2[0]))
    return None


def verify(fm, x, e, vs, it, val, bv, forms, k):
    if fm[0] == "inv":
        return all(v is x for v in vs)
    if fm[0] == "step":
        mp = {it: addk(it, 1)}
        nx = subst(x, mp)
        return all(v is nx for v in vs)
    if fm[0] in ("shr", "shl", "aff"):
        nx = subst(x, {it: addk(it, 1)})
        return all(v is nx for v in vs)
    if fm[0] == "bits":
        for j in range(8):
            if fm[1][j] == "e":
                b = fbit(x, j)
                if not all(fbit(v, j) is b for v in vs):
                    return False
        return True
    if fm[0] == "eq":
        o = fm[1]
        return all(a is b for a, b in zip(vs, bv[o]))
    return True


def self_phi(s, fr, o):
    _, blk, pred, env, st = o
    if pred is not None:
        env = s.phis(fr, blk, pred, env, st)
    return (env, st)


def re_minmax(name):
    if name.startswith("llvm."):
        p = name.split(".")
        if p[1] in ("umin", "umax", "smin", "smax"):
            return p[1]
    return None


def binop(op, a, b):
    if op == "add":
        return addp(a, b)
    if op == "sub":
        return sub(a, b) if a.op != "ptr" else subp(a, b)
    if op == "mul":
        return mul(a, b)
    if op == "and":
        return band2(a, b)
    if op == "or":
        return bor2(a, b)
    if op == "xor":
        return bxor2(a, b)
    if op == "shl":
        return shl(a, toZ(b))
    if op == "lshr":
        return div(a, toZ(b))
    if op == "ashr":
        return ashr(a, toZ(b))
    if op == "udiv":
        return udiv(a, b)
    if op == "urem":
        return urem(a, b)
    if op == "sdiv":
        return sdiv(a, b)
    if op == "srem":
        return srem(a, b)
    raise AnalysisBroken("binop " + op)


def addp(a, b):
    return add(a, b)


def subp(a, b):
    if a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]:
        return sub(a.a[1], b.a[1])
    return mk("pdiff", 64, a, b)


def icmp(pr, a, b):
    if pr == "eq":
        return eq(a, b)
    if pr == "ne":
        return ne(a, b)
    if a.w == 64 and (a.op == "ptr" and b.op == "ptr" and a.a[0] == b.a[0]):
        a, b = a.a[1], b.a[1]
    if pr == "ult":
        return ult(a, b)
    if pr == "ugt":
        return ult(b, a)
    if pr == "ule":
        return bnot(ult(b, a))
    if pr == "uge":
        return bnot(ult(a, b))
    if pr == "slt":
        return slt(a, b)
    if pr == "sgt":
        return slt(b, a)
    if pr == "sle":
        return bnot(slt(b, a))
    if pr == "sge":
        return bnot(slt(a, b))
    raise AnalysisBroken("icmp " + pr)
