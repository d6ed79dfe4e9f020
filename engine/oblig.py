"""Obligations: how a rule instance is decided.

A rule produces obligations (state, goal).  An obligation is *proved* when the
goal follows in the abstract domain from the facts of its path.  When it does
not, the goal and the path's facts are re-interpreted at random points
(random interpretation of the normal forms: a domain-level sanity filter, not
an execution of the program); only if some point satisfies every fact and
falsifies the goal is the rule instance reported as a violation, naming the
construct and the point.  Otherwise the instance is logged as undecided.
"""
import random
import os
import time
from terms import *
from absint import atomset

# symbols that stand for missing knowledge rather than for a possible value
UNKNOWNS = ("opq#", "ambig#", "memcpy#", "memcmp#", "glob#", "ld_", "hv#", "unk#")
PROVED, VIOLATED, UNDECIDED = "proved", "violated", "undecided"


class Rec:
    __slots__ = ("prop", "rule", "loc", "func", "status", "detail", "path", "loose")

    def __init__(s, prop, rule, loc, func, status, detail="", path=""):
        s.prop, s.rule, s.loc, s.func, s.status, s.detail, s.path = prop, rule, loc, func, status, detail, path
        s.loose = None

    def tup(s):
        return (s.prop, s.rule, s.loc, s.func, s.status, s.detail, s.path)


class Ctx:
    """collects obligations of one analysed entry point under one configuration"""

    MAXREF = 4          # confirmed violations per context before we stop refuting
    REFBUDGET = 60.0    # seconds

    def __init__(s, want, eng, func, label, seed=1, budget=None):
        s.want = want            # set of property ids, or None for all
        s.eng, s.func, s.label = eng, func, label
        s.out = []
        s.seen = {}
        s.rng = random.Random(seed * 7919 + sum(map(ord, func + label)))
        s.conf = 0
        s.tref = 0.0
        s.budget = budget or s.REFBUDGET
        s.phimap = None
        s.loose = {}
        s.segok = set()          # loops whose output bytes are named on purpose
        s.free = set()           # loop variables known to range over everything their facts allow

    def vague(s, g):
        """does the goal depend on a value that only stands for missing knowledge?
        (bytes written by a loop of unknown shape, overlapping writes)"""
        seen, stk = set(), [g]
        while stk:
            x = stk.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "s" and x.a[0].startswith(UNKNOWNS):
                return True
            if x.op == "fn" and ((x.a[0].startswith("seg:") and x.a[0] not in s.segok) or
                                 (x.a[0].startswith("byte_opaque:") and "#" in x.a[0] and not x.a[0].startswith("byte_opaque:PB#"))):
                return True
            if x.op in ("word", "fn") and x.a[0].startswith(("memcpy#", "byte_memcpy#")):
                return True
            if x.op == "word" and x.a[0].startswith("opaque:") and "#" in x.a[0] and not x.a[0].startswith("opaque:PB#"):
                return True
            stk.extend(kids(x))
        return False

    def wants(s, props):
        return s.want is None or any(p in s.want for p in props)

    def ob(s, props, rule, st, goal, loc, path=None, extra=""):
        """state st must imply goal (T of width 1, or python bool)"""
        props = (props,) if isinstance(props, str) else props
        if not s.wants(props):
            return None
        if goal is True:
            goal = TRUE
        elif goal is False:
            goal = FALSE
        g = goal
        if g.conds:
            g = st.simp(g)
        r = st.decide(g)
        status, det = PROVED, ""
        if r is not True:
            r2 = prove(st, g)
            if r2 is True:
                r = True
        if r is not True:
            key = (rule, loc, g)
            if key in s.seen:
                status, det = s.seen[key]
            elif s.vague(g):
                status, det = UNDECIDED, "depends on a value the analysis does not know: " + show(g)[:300]
            elif s.conf >= s.MAXREF or s.tref > s.budget:
                status, det = UNDECIDED, "refutation budget used"
            else:
                t0 = time.time()
                cex = refute(s, st, g)
                s.tref += time.time() - t0
                if cex is not None:
                    status, det = VIOLATED, cex
                    s.conf += 1
                else:
                    status, det = UNDECIDED, "not derivable, not refuted: " + show(g)[:300]
            if status == UNDECIDED and key not in s.seen:
                c = loose(s, st, g)
                if c is not None:
                    s.loose[key] = c
            s.seen[key] = (status, det)
        for p in props:
            if s.want is None or p in s.want:
                s.out.append(Rec(p, rule, loc, s.func + s.label, status, (extra + " " if extra else "") + det,
                                 pathstr(st) if status != PROVED else ""))
                if status == UNDECIDED:
                    s.out[-1].loose = s.loose.get(key)
        return status

    def finish(s):
        """a rule that holds on no path at all, and whose failure has nothing to do
        with which path is taken, is violated if any of the paths is possible"""
        by = {}
        for o in s.out:
            by.setdefault((o.prop, o.rule, o.func), []).append(o)
        for k, os_ in by.items():
            if all(o.status == VIOLATED or o.loose is not None for o in os_):
                for o in os_:
                    if o.status == UNDECIDED:
                        o.status, o.detail = VIOLATED, "on every path, " + o.loose

    def fact(s, props, rule, ok, loc, detail="", st=None):
        """a structural fact decided directly"""
        props = (props,) if isinstance(props, str) else props
        if not ok and st is not None:
            # only a violation if the path is feasible
            return s.ob(props, rule, st, FALSE, loc, extra=detail)
        for p in props:
            if s.want is None or p in s.want:
                s.out.append(Rec(p, rule, loc, s.func + s.label, PROVED if ok else VIOLATED,
                                 "" if ok else detail, pathstr(st) if st is not None and not ok else ""))


def pathstr(st):
    ev = [e for e in st.events() if e.kind != "LOOP"]
    return " -> ".join("%s%s@%d" % (e.kind, "" if e.ok is None else "+" if e.ok else "-", e.loc[1]) for e in ev[-12:])


def zmono(m):
    """integer product congruent to a machine monomial"""
    if m.op == "mul":
        r = C(1, 0) if m.a[0] is None else p2(toZ(m.a[0]), 0)
        for x in m.a[1]:
            r = mul(r, toZ(x))
        return r
    return toZ(m)


def zform(t):
    """integer polynomial congruent to a machine linear form"""
    if t.op == "mul":
        return zmono(t)
    c, ms = t.a
    r = C(cen(c, t.w), 0)
    for m, k in ms:
        r = add(r, scale(zmono(m), cen(k, t.w)))
    return r


def unwrap(st, ts):
    """zx(linear form) atoms whose arithmetic provably does not wrap here"""
    mp = {}
    seen, stk = set(), list(ts)
    while stk:
        x = stk.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == "zx" and x.w == 0 and x.a[0].op in ("lin", "mul") and x.a[0].w >= 32:
            z = zform(x.a[0])
            if st.al:
                z = subst(z, st.al)
            if st.decide(ge0(z)) is True and st.decide(ge0(sub(C(M(x.a[0].w), 0), z))) is True:
                mp[x] = z
        stk.extend(kids(x))
    return mp


def rewrite(st, g, mp):
    """apply an equivalence-preserving substitution to facts and goal"""
    n = st.fork()
    n.thaw()
    fs = n.facts
    n.facts = {}
    n.clauses = ()
    n.imps = tuple((subst(c, mp), pol, tuple((subst(f, mp), v) for f, v in l)) for c, pol, l in st.imps)
    n._dc, n._iq, n._str, n._mp = {}, None, None, None
    later = []
    for f, v in fs.items():
        f2 = subst(f, mp)
        if f2 is f:
            n.facts[f] = v
            if f.op == "band" and not v:
                n.clauses = n.clauses + (f,)
        else:
            later.append((f2, v))
    for f2, v in later:
        if not n.assume(f2, v):
            return None, g
    g = subst(g, mp)
    return n, n.simp(g) if g.conds else g


def lifteq(st, f):
    """machine equality over the integers, if neither side can wrap here"""
    if f.op == "eq0" and f.a[0].w >= 32 and f.a[0].op in ("lin", "mul"):
        w = f.a[0].w
        z = zform(f.a[0])
        if st.al:
            z = subst(z, st.al)
        if st.decide(ge0(addk(z, M(w)))) is True and st.decide(ge0(sub(C(M(w), 0), z))) is True:
            return eq0(z)
    return None


def lifted(st, g):
    """state and goal with non-wrapping machine arithmetic lifted to integers"""
    mp = unwrap(st, list(st.facts) + [g])
    gs = [x for x in subs([g]) if x.op == "eq0"] if g.op != "eq0" else [g]
    for f in list(st.facts) + gs:
        r = lifteq(st, f)
        if r is not None and r is not f:
            mp[f] = r
    if not mp:
        return st, g
    return rewrite(st, g, mp)


def subs(ts):
    seen, stk = set(), list(ts)
    while stk:
        x = stk.pop()
        if x in seen:
            continue
        seen.add(x)
        stk.extend(kidlist(x))
    return seen


_al = {}


def unaligned(st, g):
    """write aligned values as multiples: x mod 2^e = 0  =>  x = 2^e q"""
    mp = {}
    for f, v in st.facts.items():
        if v and f.op == "eq0" and f.a[0].op == "mod":
            x, e = f.a[0].a
            y = x.a[0] if x.op == "zx" else x
            if y.op == "s" and not y.a[0].startswith("mul.") and not isc(e):
                z = toZ(y)
                if z in mp and not geZ(sub(e, mp[z][1])):
                    continue
                q = _al.get((z, e))
                if q is None:
                    q = _al[(z, e)] = S("mul.%s/%s" % (y.a[0], show(e)), 0, 0, bounds(z)[1])
                mp[z] = (q, e)
    if not mp:
        if st.al:
            g2 = subst(g, st.al)
            if g2 is not g or any(subst(f, st.al) is not f for f in st.facts):
                return rewrite(st, g, st.al)
        return st, g
    m2 = dict(st.al) if st.al else {}
    for z, (q, e) in mp.items():
        x = mul(q, p2(e, 0))
        m2[z] = x
        m2[eq0(z)] = eq0(x)
        if z.op == "zx":
            m2[eq0(z.a[0])] = eq0(x)
    n, g = rewrite(st, g, m2)
    if n is not None:
        n.al = m2
        n._str = None
    return n, g


def steps(st, g):
    """rewrites for x+1 next to x under >> and mod; or a condition to split on"""
    al = subs(list(st.facts) + [g])
    divs = {}
    for x in al:
        if x.op == "div" and x.w == 0:
            y, e = x.a
            c, _ = tolin(y)
            divs.setdefault((addk(y, -c), e), set()).add(c)
    mp = {}
    split = None
    for (y, e), cs in divs.items():
        for c in sorted(cs):
            if c - 1 not in cs or isc(y):
                continue
            hi = addk(y, c)
            cond = eq0(mod(hi, e))
            d = st.decide(cond)
            if d is None:
                if geZ(addk(y, c - 1)):
                    split = split or cond
            else:
                t = div(hi, e)
                if t.op == "div":
                    lo = div(addk(y, c - 1), e)
                    mp[t] = addk(lo, 1) if d else lo
    for (y, e), cs in divs.items():
        # align_down(x, a) + 2^a against x
        if mp or 0 not in cs or y.op != "lin":
            continue
        c, ms = tolin(y)
        if c or len(ms) != 2:
            continue
        for m, k in ms.items():
            if k != 1 or m.op != "mul" or m.a[1] or m.a[0] is None or not geZ(sub(e, m.a[0])):
                continue
            o = sub(y, m)
            if o.op == "mul" and o.a[0] is m.a[0] and len(o.a[1]) == 1:
                x = o.a[1][0]
                x = x.a[0] if x.op == "zx" and x.a[0].op == "div" else x
                if x.op == "div" and x.a[1] is m.a[0]:
                    cond = eq0(mod(y, e))
                    d = st.decide(cond)
                    if d is None:
                        split = split or cond
                    else:
                        t, lo = div(y, e), div(toZ(x.a[0]), e)
                        if t.op == "div":
                            mp[t] = addk(lo, 1) if d else lo
    if not mp and len(divs) > 1:
        # the same for a step of 2^a from a multiple of 2^a
        ds = [(addk(y, c), e) for (y, e), cs in divs.items() for c in cs]
        for y2, e in ds:
            for y1, e1 in ds:
                if e1 is not e or y1 is y2 or len(ds) > 12:
                    continue
                df = sub(y2, y1)
                if df.op != "mul" or df.a[1] or df.a[0] is None or not geZ(sub(e, df.a[0])):
                    continue
                Q, R = divisible(y1, df.a[0])
                if not (isc(R) and cv(R) == 0):
                    continue
                cond = eq0(mod(y2, e))
                d = st.decide(cond)
                if d is None:
                    split = split or cond
                else:
                    t, lo = div(y2, e), div(y1, e)
                    if t.op == "div":
                        mp[t] = addk(lo, 1) if d else lo
    return mp, split


def reduced(st, g):
    """x mod 2^e = x and x >> e = 0 when the state bounds x below 2^e"""
    mp = {}
    for x in subs([g]):
        if x.op not in ("mod", "div") or x.w not in (0, 32) or isc(x.a[1]):
            continue
        y, e = x.a
        if x.w:
            if y.op not in ("lin", "mul"):
                continue
            z = zform(y)
            if not (st.decide(ge0(z)) is True and st.decide(ge0(sub(C(M(32), 0), z))) is True):
                continue
            Q, R = divisible(y, e)
            zr = zform(R) if R.op in ("lin", "mul") else toZ(R)
            for k in (0, 1):
                if st.decide(ge0(zr)) is True and st.decide(ge0(sub(addk(p2(e, 0), -1), zr))) is True:
                    mp[x] = (R, add(R, p2(e, 32)))[k] if x.op == "mod" else addk(Q, -k)
                    break
                zr = add(toZs(R) if isc(R) else zr, p2(e, 0))
            continue
        if e.op in ("mod", "div") or (x.op == "div" and ("mod" in (k.op for k in kidlist(y)))):
            continue
        Q, R = divisible(y, e)
        if R is y:
            Q = C(0, 0)
        if st.decide(ge0(R)) is True and (st.decide(ge0(sub(addk(p2(e, 0), -1), R))) is True or
                                          scaled(st, ge0(sub(addk(p2(e, 0), -1), R)))):
            mp[x] = R if x.op == "mod" else Q
            continue
        R2 = add(R, p2(e, 0))
        if st.decide(ge0(addk(neg(R), -1))) is True and st.decide(ge0(R2)) is True:
            mp[x] = R2 if x.op == "mod" else addk(Q, -1)
            continue
        if x.op == "div" and y.op == "lin":
            # 2^a * (z >> a) + r >> e  for r < 2^a, a <= e
            for m, k in tolin(y)[1].items():
                if k != 1 or m.op != "mul" or m.a[0] is None or len(m.a[1]) != 1:
                    continue
                q = m.a[1][0]
                if q.op == "div" and q.a[1] is m.a[0] and geZ(sub(e, m.a[0])):
                    r = sub(y, m)
                    if st.decide(ge0(r)) is True and st.decide(ge0(sub(addk(p2(m.a[0], 0), -1), r))) is True:
                        mp[x] = div(q.a[0], e)
                        break
            if x in mp:
                continue
        if R is y and y.op == "zx" and y.a[0].op == "s":
            # y < 2^e * Q1 is known: is y in the last block before it?
            for F in st._ineqs():
                if F.op != "lin" or tolin(F)[1].get(y) != -1:
                    continue
                Q1, R1 = divisible(add(F, y), e)
                if not isc(R1) or isc(Q1) or cv(R1) < -1:
                    continue
                q = addk(Q1, -1)
                lo = sub(y, mul(q, p2(e, 0)))
                if st.decide(ge0(lo)) is True and st.decide(ge0(sub(addk(p2(e, 0), -1), lo))) is True:
                    mp[x] = q if x.op == "div" else lo
                    break
    return mp


def pinned(st, g):
    """equalities forced by opposite inequalities, about the goal's values"""
    fs = st._ineqs()
    at = None
    have = set(fs)
    mp = {}
    for F in fs:
        if isc(F):
            continue
        if bounds(F)[1] == 0 or neg(F) in have:
            if at is None:
                at = allatoms([g])
            fa = allatoms([F])
            if at.isdisjoint(fa):
                continue
            c, ms = tolin(F)
            if bounds(F)[1] == 0:
                # every term at its extreme
                for m, k in ms.items():
                    lo, hi = bounds(m)
                    v = hi if k > 0 else lo
                    if m not in mp and m.op == "zx":
                        mp[m] = C(v, 0)
                        mp[m.a[0]] = C(v, m.a[0].w)
                continue
            for m, k in ms.items():
                if m.op == "zx" and abs(k) == 1 and m not in mp and not any(x in mp for x in ms):
                    e = sub(m, F) if k > 0 else add(m, F)
                    if m not in subs([e]) and m.a[0] not in subs([e]):
                        mp[m] = e
                        if isc(e):
                            mp[m.a[0]] = C(cv(e), m.a[0].w)
                        break
    return mp


LEAF = []
NODES = [0, 0]


def prove(st, g, limit=300):
    """does the state imply the goal?  (True, or None/False when not derived)"""
    NODES[0], NODES[1] = 0, limit
    return prove1(st, g, 0)


def prove_lite(st, g):
    return prove(st, g, 5)


def prove1(st, g, depth=0, lim=14):
    """goal by decision, normalisation and case analysis"""
    NODES[0] += 1
    if NODES[0] > NODES[1]:
        return None
    r = st.decide(g)
    if r is True:
        return r
    st = st.strengthen()
    r = st.decide(g)
    if r is True:
        return r
    n, g2 = lifted(st, g)
    if n is None:
        return True
    if n is not st or g2 is not g:
        st, g = n, g2
        r = st.decide(g)
        if r is True:
            return r
    if depth > lim:
        return None
    if g.op == "band":
        for x in g.a[0]:
            if prove1(st, x, depth + 1) is not True:
                return None
        return True
    if g.op == "not" and g.a[0].op == "band":
        # disjunction: assume all but one false
        parts = g.a[0].a[0]
        for i, x in enumerate(parts):
            n = st.fork()
            ok = True
            for j, y in enumerate(parts):
                if j != i:
                    if not n.assume(y, True):
                        ok = False
                        break
            if not ok:
                return True
            x2 = n.simp(x) if x.conds else x
            if n.decide(x2) is False:
                return True
        # split on first
        for x in parts:
            if x.conds or x.op in ("band", "not", "ite"):
                break
        else:
            x = parts[0]
        rest = [y for y in parts if y is not x]
        n = st.fork()
        if not n.assume(x, True):
            return True
        gg = bnot(band(*rest)) if rest else FALSE
        gg = n.simp(gg) if gg.conds else gg
        return True if prove1(n, gg, depth + 1) is True else None
    cs = g.conds
    if cs:
        c = min(cs, key=lambda x: x.id)
        return split2(st, g, c, depth)
    # normal forms for aligned values
    n, g2 = unaligned(st, g)
    if n is None:
        return True
    if n is not st:
        return True if prove1(n, g2, depth + 1) is True else None
    mp, c = reduced(st, g), None
    if not mp:
        mp, c = steps(st, g)
    if mp:
        n, g2 = rewrite(st, g, mp)
        if n is None:
            return True
        if n is not st:
            return True if prove1(n, g2, depth + 1) is True else None
    if c is not None:
        return split2(st, g, c, depth)
    mp = pinned(st, g)
    if mp:
        n, g2 = rewrite(st, g, mp)
        if n is None:
            return True
        if g2 is not g:
            return True if prove1(n, g2, depth + 1) is True else None
    mp = st.eqmap()
    if mp:
        g2 = subst(g, mp)
        if g2 is not g:
            return True if prove1(st, g2, depth + 1) is True else None
    if depth < 9:
        at = allatoms([g])
        fs_ = st.facts
        best = None
        for k, pol, l in st.imps:
            if fs_.get(k) is None and any(not at.isdisjoint(allatoms([f])) for f, v in l if f not in fs_):
                ks = [x for x in (k.a[0] if k.op == "band" else (k,)) if st.decide(x) is None]
                if ks:
                    best = ks[0]
                    break
        if best is None:
            for i, (f, v) in enumerate(reversed(list(fs_.items()))):
                if f.conds and (i < 6 or not at.isdisjoint(allatoms([f]))):
                    best = min(f.conds, key=lambda x: x.id)
                    break
        if best is not None:
            return split2(st, g, best, depth)
    n = st.fork()
    if not n.assume(g, False):
        return True
    mp = n.eqmap()
    if mp and rewrite(n, FALSE, mp)[0] is None:
        return True
    if scaled(st, g):
        return True
    if LEAF is not None and len(LEAF) < 3:
        LEAF.append((st, g))
    return None


def scaled(st, g):
    """an inequality by subtracting facts multiplied by powers of two"""
    L = g.a[0] if g.op == "ge0" else addk(neg(g.a[0].a[0]), -1) if g.op == "not" and g.a[0].op == "ge0" else None
    if L is None or L.op != "lin" or NODES[1] <= 5:
        return False
    fs = [F for F in st._ineqs() if F.op in ("lin", "zx", "s", "mul")]

    def go(L, n, used):
        for m, k in tolin(L)[1].items():
            if k >= 0 or m.op != "mul" or m.a[0] is None:
                continue
            e, f = m.a
            f = mul(C(1, 0), f[0]) if len(f) == 1 else None
            if f is None:
                continue
            for F in fs:
                if F in used or tolin(F)[1].get(f) != -1:
                    continue
                L2 = sub(L, scale(mul(F, p2(e, 0)), -k))
                if st.decide(ge0(L2)) is True:
                    return True
                if n and go(L2, n - 1, used + (F,)):
                    return True
        return False
    if go(L, 2, ()):
        return True
    es = {x.a[1] for x in tolin(L)[1] if x.op == "div" and not isc(x.a[1])}
    for e in es:
        L1 = add(mul(L, p2(e, 0)), addk(p2(e, 0), -1))       # 2^e L + 2^e - 1 >= 0
        d = tolin(L1)[1]
        for F in fs:
            dF = tolin(F)[1]
            if any(m in d and d[m] == k for m, k in dF.items()) and st.decide(ge0(sub(L1, F))) is True:
                return True
    return False


def resat(n):
    """replace gated facts whose gates are decided; None if contradictory"""
    for _ in range(3):
        ch = False
        for f, v in list(n.facts.items()):
            if not f.conds:
                continue
            n.thaw()
            del n.facts[f]
            f2 = n.simp(f)
            if f2 is f:
                n.facts[f] = v
                continue
            n._iq = n._str = None
            n.clauses = tuple(x for x in n.clauses if x is not f)
            ch = True
            if not n.assume(f2, v):
                return None
        if not ch:
            break
    return n


def split2(st, g, c, depth):
    if c.op == "not":
        c = c.a[0]
    for v in (True, False):
        n = st.fork()
        if not n.assume(c, v):
            continue
        if n.facts.get(c) is None:
            n.thaw()
            n.facts[c] = v
        n = resat(n)
        if n is None:
            continue
        g2 = n.simp(g) if g.conds else g
        if prove1(n, g2, depth + 1) is not True:
            return None
    return True


# ---------------------------------------------------------------------------
# random interpretation
class Miss(Exception):
    pass


def phi_maps(eng):
    """phi symbol -> (loop id, entry term); it symbol -> loop id"""
    pm, its = {}, {}
    for rec in eng.loops:
        its[rec.it] = rec
        for k, (form, val, ent, bv) in rec.phis.items():
            if k in rec.shapes and val.op == "lin":
                q, off = rec.shapes[k]
                pm[q] = (rec, addk(ent, -off))
            elif val.op == "s" and val is not ent:
                pm[val] = (rec, ent)
            elif val.op == "ptr" and val.a[1].op == "s" and ent.op == "ptr":
                pm[val.a[1]] = (rec, ent.a[1])
            elif val.op == "bits":
                for j, q in enumerate(val.a[0]):
                    if q.op == "s" and q.a[0].startswith("phi."):
                        pm[q] = (rec, fbit(ent, j))
    return pm, its


def allatoms(ts):
    seen, out, stk = set(), set(), list(ts)
    while stk:
        x = stk.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op in ("s", "nn"):
            out.add(x)
        stk.extend(kids(x))
    return out


def refute(ctx, st, goal, tries=None):
    items = []
    for f, v in st.facts.items():
        items.append((f, v))
    for c, pol, fs in st.imps:
        p = c if pol else bnot(c)
        for f, v in fs:
            try:
                items.append((implies(p, f if v else bnot(f)), True))
            except Exception:
                pass
    if ctx.phimap is None:
        ctx.phimap = phi_maps(ctx.eng)
    pm, its = ctx.phimap
    at = allatoms([goal] + [f for f, v in items])
    recs = []
    for a in at:
        r = pm[a][0] if a in pm else its.get(a)
        if r is not None and r not in recs:
            recs.append(r)
    # entries may mention phis of outer loops
    work = list(recs)
    while work:
        r = work.pop()
        ents = [e for (rr, e) in pm.values() if rr is r]
        for a in allatoms(ents):
            q = pm[a][0] if a in pm else its.get(a)
            if q is not None and q not in recs:
                recs.append(q)
                work.append(q)
    n = len(recs)
    modes = [0] if n == 0 else list(range(min(1 << n, 16)))
    for mode in modes:
        mp = {}
        for i, r in enumerate(recs):
            if not mode >> i & 1:
                mp[r.it] = C(0, 32)
                for a, (rr, e) in pm.items():
                    if rr is r:
                        mp[a] = e
        free = [r for i, r in enumerate(recs) if mode >> i & 1]

        def close(t):
            for _ in range(6):
                t2 = subst(t, mp)
                if t2 is t:
                    return t
                t = t2
            return t
        g = close(goal) if mp else goal
        if isc(g) and cv(g):
            continue
        ga = allatoms([g])
        if any(a in pm and a not in ctx.free for a in ga):
            continue
        if any(a in its and a not in ctx.free and its[a] in free and any(rr is its[a] for rr, e in pm.values()) for a in ga):
            # a later iteration's counter, without what else varies in the loop
            continue
        if any(a.op == "s" and ("opaque" in a.a[0]) for a in ga):
            continue
        its2 = []
        bad = False
        for f, v in items:
            f2 = close(f) if mp else f
            if isc(f2):
                if bool(cv(f2)) != v:
                    bad = True
                    break
                continue
            its2.append((f2, v))
        if bad:
            continue
        lp = [x for x in free if not any(rr is x for rr, e in pm.values())]
        r = search(ctx.rng, its2, g, tries or (40 if not free else 15), lambda env, uf: iterates(lp, env, uf, pm))
        if r is not None:
            return ("first-iteration " if mp else "") + fmt_cex(r)
    for r in recs:
        if any(rr is r for rr, e in pm.values()) and 0 < len(r.backs) <= 12:
            c = second(ctx, items, goal, recs, r, pm, its, tries)
            if c is not None:
                return "second-iteration " + c
    return None


def loose(ctx, st, goal):
    """a counterexample to a goal that shares nothing with the conditions of the path"""
    if ctx.phimap is None:
        ctx.phimap = phi_maps(ctx.eng)
    pm, its = ctx.phimap
    comp = allatoms([goal])
    if not comp or any(a in pm or a in its or created(a) for a in comp):
        return None
    if atoms(goal) - comp:
        return None
    for f in st.facts:
        if allatoms([f]) & comp:
            return None
    for c, pol, fs in st.imps:
        if allatoms([c] + [f for f, v in fs]) & comp:
            return None
    x = search(ctx.rng, [], goal, 10)
    return fmt_cex(x) if x is not None else None


def created(a):
    n = a.a[0].rpartition("#")[2]
    return int(n) if n.isdigit() else 0


def second(ctx, items, goal, recs, r, pm, its, tries):
    """a point in the second round of the loop r: its variables hold what one
    back edge of the first round gives them, under that edge's conditions"""
    rid = created(r.it)
    base = {}
    for x in recs:
        if x is not r:
            base[x.it] = C(0, 32)
            for a, (rr, e) in pm.items():
                if rr is x:
                    base[a] = e

    def close(t, mp):
        for _ in range(6):
            t2 = subst(t, mp)
            if t2 is t:
                return t
            t = t2
        return t

    class Bad(Exception):
        pass

    def prime(t):
        mp = {}
        for a in atoms(t):
            if a.op in ("s", "nn"):
                if created(a) > rid:
                    if a in pm or a in its:
                        raise Bad
                    if a.op == "nn":
                        raise Bad
                    lo, hi = SYMRANGE.get(a, (0, None))
                    mp[a] = S(a.a[0] + "'", a.w, lo, hi)
            elif "#" in str(a.a[0]) and created(a) > rid:
                raise Bad
        return subst(t, mp) if mp else t
    first = dict(base)
    first[r.it] = C(0, 32)
    for a, (rr, e) in pm.items():
        if rr is r:
            first[a] = e
    for i, (env, b) in enumerate(r.backs):
        try:
            mp = dict(base)
            for k, (form, val, ent, bv) in r.phis.items():
                x = bv[i]
                if k in r.shapes and val.op == "lin":
                    q, off = r.shapes[k]
                    if x is None:
                        raise Bad
                    mp[q] = addk(x, -off)
                elif val.op == "s" and val is not ent:
                    if x is None:
                        raise Bad
                    mp[val] = x
                elif val.op == "ptr" and val.a[1].op == "s" and ent.op == "ptr":
                    raise Bad
                elif val.op == "bits":
                    if x is None:
                        raise Bad
                    for j, q in enumerate(val.a[0]):
                        if q.op == "s" and q.a[0].startswith("phi."):
                            mp[q] = fbit(x, j)
            mp[r.it] = C(1, 32)
            for k in list(mp):
                if k is not r.it and k not in base:
                    mp[k] = prime(close(mp[k], first))
            its2 = []

            def put(f, v):
                if isc(f):
                    if bool(cv(f)) != v:
                        raise Bad
                    return
                its2.append((f, v))
            for f, v in b.facts.items():
                put(prime(close(f, first)), v)
            for c, pol, fs in b.imps:
                p = c if pol else bnot(c)
                for f, v in fs:
                    put(prime(close(implies(p, f if v else bnot(f)), first)), True)
            one = lambda t: close(subst(t, mp), base)
            g = one(goal)
            for f, v in items:
                put(one(f), v)
        except Bad:
            continue
        if isc(g) and cv(g):
            continue
        ga = allatoms([g] + [f for f, v in its2])
        if any(a in pm or (a in its and a not in ctx.free) for a in ga):
            continue
        if any(a.op == "s" and "opaque" in a.a[0] for a in ga):
            continue
        x = search(ctx.rng, its2, g, tries or 25)
        if x is not None:
            return fmt_cex(x)
    return None


class Unknown(Exception):
    pass


def iterates(lp, env, uf, pm):
    """can every earlier iteration of the loops lp (whose variables are all
    functions of the count) have gone round at this point?"""
    for rec in lp:
        k = env.get(rec.it)
        if not k or k > 300 or not rec.backs:
            continue
        new = [[(f, v) for f, v in b.facts.items() if f not in rec.head.facts] for _, b in rec.backs]

        def q(term, args):
            v = uf.get((str(term.a[0]), args, term.w)) if args is not None else None
            if v is None:
                raise Unknown
            return v
        for j in range(k):
            e2 = dict(env)
            e2[rec.it] = j
            e2["?"] = q
            some = False
            for fs in new:
                ok = True
                for f, v in fs:
                    if any(a not in e2 or a in pm for a in allatoms([f]) if a.op == "s"):
                        continue
                    try:
                        if bool(evaluate(f, e2, {})) != v:
                            ok = False
                            break
                    except (Unknown, EvalError, KeyError):
                        pass
                if ok:
                    some = True
                    break
            if not some:
                return False
    return True


def fmt_cex(env):
    out = []
    for k in sorted(env, key=lambda k: str(k)):
        v = env[k]
        nmk = k.a[0] if isinstance(k, T) and k.op == "s" else ("nonnull " + k.a[0] if isinstance(k, T) else "%s%s" % (k[0], list(k[1])))
        out.append("%s=%s" % (nmk, v if v < 4096 else hex(v)))
    return "at " + ", ".join(out)


def cands(rng, k, geo):
    """candidate values of an atom"""
    nb, pb, pc = geo
    chip = nb << pb
    w = k.w if isinstance(k, T) else k[2]
    if w == 1:
        return [0, 1]
    name = k.a[0] if isinstance(k, T) else k[0]
    if isinstance(k, T):
        if name == "ppc":
            return [1, 2, 3]
        if name == "ppb":
            return [1, 2, 3, 4]
        if name == "nb":
            return [2, 3, 4, 5]
        if name == "lps":
            return [8, 9, 10, 11]
        lo, hi = SYMRANGE.get(k, (0, M(k.w) if k.w else 1 << 20))
    else:
        lo, hi = 0, M(w) if w else 1 << 20
    c = set()
    c.update((0, 1, 2, 3, 4, 5, 6, 7, 8, 9, lo, min(hi, lo + 1)))
    if w <= 8:
        c.update((127, 128, 255, 254, 16, 31, 32))
        c.add(rng.randrange(256))
    else:
        for _ in range(4):
            b = rng.randrange(nb) << pb
            c.update((b, b + 1, b + (1 << pc) - 1, b + (1 << pc) - 2, b + (1 << pb) - 1, b + (1 << pb) - 2))
            c.add(b + (1 << pc))
        for _ in range(6):
            c.add(rng.randrange(chip))
        c.update((chip - 1, chip - 2, chip, chip - (1 << pb)))
        if hi >= 0xffffffff:
            c.update((0xffffffff, 0xfffffffe, 0x80000000, rng.randrange(1 << 32)))
        if hi <= 64:
            c.update(range(lo, hi + 1))
    c.update((hi,)) if hi <= 4096 else None
    r = [x for x in c if lo <= x <= hi]
    return r or [lo]


GEO = ("ppc", "ppb", "nb", "lps")


def search(rng, items, goal, tries, accept=None):
    allt = [(f, int(v)) for f, v in items] + [(goal, 0)]
    base = sorted(allatoms([f for f, v in allt]), key=lambda t: t.id)
    deadline = time.time() + 6.0
    for t in range(tries):
        if time.time() > deadline:
            return None
        if t % 4 == 3:
            nb, pb = rng.choice((7, 40, 300, 5000, 70000)), rng.choice((3, 5, 6, 8))
            pc = rng.randrange(1, min(pb, 7) + 1)
        else:
            nb, pb = rng.choice((2, 3, 4, 5)), rng.choice((1, 2, 3, 4))
            pc = rng.randrange(1, min(pb, 3) + 1)
        lp = rng.choice((11, max(8, (20 + 132 * ((1 << pc) - 1) - 1).bit_length())))
        geo = (nb, pb, pc)
        env = {}
        for a in base:
            nm = a.a[0] if a.op == "s" else ""
            if nm == "ppc":
                env[a] = pc
            elif nm == "ppb":
                env[a] = pb
            elif nm == "nb":
                env[a] = nb
            elif nm == "lps":
                env[a] = lp
            else:
                env[a] = rng.choice(cands(rng, a, geo))
        uf = {}
        vals, touch = [None] * len(allt), [None] * len(allt)

        def evalitem(i):
            tc = set()

            def q(term, args):
                if args is None:
                    return 0
                k = (str(term.a[0]), args, term.w)
                tc.add(k)
                v = uf.get(k)
                if v is None:
                    v = uf[k] = rng.choice(cands(rng, k, geo))
                return v
            e = Env(env, q, tc)
            try:
                v = evaluate(allt[i][0], e, {})
            except EvalError:
                v = -1
            return v, tc

        for i in range(len(allt)):
            vals[i], touch[i] = evalitem(i)
        nbad = sum(1 for i in range(len(allt)) if vals[i] != allt[i][1])
        flips = 0
        while nbad and flips < 120:
            flips += 1
            bad = [i for i in range(len(allt)) if vals[i] != allt[i][1]]
            i = rng.choice(bad)
            vs = [k for k in touch[i] if not (isinstance(k, T) and k.op == "s" and k.a[0] in GEO)]
            if not vs:
                continue
            k = rng.choice(sorted(vs, key=str))
            isT = isinstance(k, T)
            old = env[k] if isT else uf[k]
            aff = [j for j in range(len(allt)) if k in touch[j]]
            best, bests = None, None
            cc = cands(rng, k, geo)
            rng.shuffle(cc)
            for c in cc[:24]:
                if c == old:
                    continue
                if isT:
                    env[k] = c
                else:
                    uf[k] = c
                sc = nbad
                res = []
                for j in aff:
                    v, tc = evalitem(j)
                    res.append((j, v, tc))
                    sc += (v != allt[j][1]) - (vals[j] != allt[j][1])
                if bests is None or sc < bests:
                    bests, best = sc, (c, res)
                if sc == 0:
                    break
            if best is None or (bests > nbad and rng.random() > 0.15):
                if isT:
                    env[k] = old
                else:
                    uf[k] = old
                continue
            c, res = best
            if isT:
                env[k] = c
            else:
                uf[k] = c
            for j, v, tc in res:
                vals[j], touch[j] = v, tc
            # uninterpreted values discovered lazily may touch other items
            nbad = bests
        if nbad == 0:
            # re-evaluate from scratch
            ok = True
            for i in range(len(allt)):
                v, tc = evalitem(i)
                if v != allt[i][1]:
                    ok = False
                    break
            if ok and (accept is None or accept(env, uf)):
                r = dict(env)
                r.update(uf)
                return r
    return None


class Env(dict):
    """environment that records which atoms are read"""

    def __init__(s, base, q, tc):
        s.base, s.q, s.tc = base, q, tc

    def get(s, k, d=None):
        v = s.base.get(k)
        if v is not None:
            s.tc.add(k)
        return v

    def __getitem__(s, k):
        if k == "?":
            return s.q
        return s.base[k]

    def __setitem__(s, k, v):
        s.base[k] = v
