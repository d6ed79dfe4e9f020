"""Rules over start-up: dhara_journal_resume, dhara_journal_init, and the
bounds of every loop of the journal."""
import ir
from ir import AnalysisBroken
from terms import *
from absint import *
from model import *
from oblig import *
import rj
from rj import (getf, flag, pbc, err_is, aligned, same, blk, NBK, state_kept, no_modify, cleared, common_rules)


# -- loops seen as evidence -----------------------------------------------------
def after(T_, L):
    evs = T_.events()
    for i in range(len(evs) - 1, -1, -1):
        if evs[i].kind == "LOOP" and evs[i].extra is L:
            return evs[i + 1:]
    return []


class Unit:
    """an inner loop instance on a path, and the events that followed it"""
    __slots__ = ("L", "evs", "ev")

    def __init__(s, ev):
        s.ev, s.L, s.evs = ev, ev.extra, []


def units(evs):
    direct, out = [], []
    for e in evs:
        if e.kind == "LOOP":
            out.append(Unit(e))
        elif out:
            out[-1].evs.append(e)
        else:
            direct.append(e)
    return direct, out


def classes(r):
    """what each loop does, from the driver calls in its iterations"""
    cl = {}
    for _ in range(3):
        for L in r.eng.loops:
            if L in cl or not L.backs:
                continue
            ks, inner, ok = set(), set(), True
            for env, b in L.backs:
                d, us = units(after(b, L))
                ks |= {e.kind for e in d}
                for u in us:
                    ks |= {e.kind for e in u.evs} if u.L not in cl else set()
                    if u.L is not L:
                        inner.add(u.L)
            ic = {cl.get(x) for x in inner}
            if not inner:
                if ks == {"is_free"}:
                    cl[L] = "scan"
                elif "is_bad" in ks:
                    cl[L] = "probe"
                elif ks == {"read"}:
                    cl[L] = "root"
                else:
                    cl[L] = "other"
            elif None in ic:
                continue
            elif ic == {"probe"}:
                cl[L] = "blocks"
            elif ic == {"scan"}:
                had = any(cl.get(e.extra) == "root" for e in L.entry.events() if e.kind == "LOOP")
                cl[L] = "head" if had else "groups"
            else:
                cl[L] = "other"
    return cl


def phisyms(L):
    """substitution: value at loop entry of everything that varies in L"""
    mp = {L.it: C(0, 32)}
    for k, (f, v, e, b) in L.phis.items():
        if k in L.shapes and v.op == "lin":
            mp[L.shapes[k][0]] = addk(e, -L.shapes[k][1])
            continue
        if v is not e and v.op == "s" and v.a and v.a[0].endswith("#%s" % L.it.a[0].split("#")[-1]):
            mp[v] = e
    return mp


def nextmap(L, i):
    """substitution: value at the next loop head along back edge i"""
    mp = {L.it: addk(L.it, 1)}
    for k, (f, v, e, b) in L.phis.items():
        if k in L.shapes and v.op == "lin":
            if i < len(b) and b[i] is not None:
                mp[L.shapes[k][0]] = addk(b[i], -L.shapes[k][1])
            continue
        if v is not e and v.op == "s" and v in phisyms(L):
            if i < len(b) and b[i] is not None:
                mp[v] = b[i]
    return mp


def at_entry(L, t):
    return subst(t, phisyms(L))


def pbyte(r, p, k):
    return r.eng.wordbyte("page", (p,), C(k, 64))


def pword(p, off):
    return word("page", C(off, 64), p)


def magic(r, p):
    return band(*[eq(pbyte(r, p, k), C(ch, 8)) for k, ch in enumerate(b"Dha")])


def ckof(B):
    """first checkpoint page of block B"""
    return addk(add(shl(B, PPBz), p2(PPCz, 32)), -1)


def isread(r, e, p=None):
    """event e is a successful whole-page read into the page buffer"""
    return e.kind == "read" and e.ok is True


def full_read(r, cx, props, e, st):
    d = e.args[4]
    cx.fact(props, "reads-into-page-buffer", d.op == "ptr" and d.a[0] == "PB" and isc(d.a[1]) and cv(d.a[1]) == 0, e.loc,
            "reads into %r" % (d,), e.st)
    cx.ob(props, "reads-whole-header", e.st, band(eq0(toZ(e.args[2])),
          ge0(addk(toZ(e.args[3]), -(HDR + COOKIE)))), e.loc)


RESET = (("epoch", 0), ("bb_current", 0), ("flags", 0), ("head", 0), ("tail", 0), ("tail_sync", 0), ("root", NONE),
         ("recover_next", NONE), ("recover_root", NONE), ("recover_meta", NONE))


def empty_state(r, cx, props, rule, T_, loc):
    m = r.m
    for f, v in RESET:
        cx.ob(props, rule + "-" + f, T_, eq(getf(m, T_.mem, T_, f), C(v, m.nm.jw(f))), loc)
    cx.ob(props, rule + "-bb_last", T_, eq(getf(m, T_.mem, T_, "bb_last"), div(NB, toZ(C(6, 32)))), loc)
    if cx.wants(props):
        o = scale(zext(rj.KSYM, 64), 4)
        s2 = T_.fork()
        if s2.assume(ge0(sub(p2(LPSz, 0), addk(toZ(o), 4))), True):
            cx.ob(props, rule + "-buffer", s2, eq(r.eng.rd32(s2, pbc(r, T_.buf), o), C(0xffffffff, 32)), loc)


def rules_init(r, cx):
    m, eng = r.m, r.eng
    P = ("C26", "C12")
    for T_, v in r.exits:
        loc = r.loc0
        evs = T_.events()
        no_modify(r, cx, ("C14", "C26"), T_)
        cx.fact(("C26",), "init-no-driver-calls", not [e for e in evs if e.kind != "LOOP"], loc, "calls the driver", T_)
        empty_state(r, cx, ("C26", "C19"), "init", T_, loc)
        nd, pb = getf(m, T_.mem, T_, "nand"), getf(m, T_.mem, T_, "page_buf")
        cx.fact(("C26",), "init-nand", nd == ptr("N"), loc, "nand is %r" % (nd,), T_)
        cx.fact(("C26",), "init-page_buf", pb == ptr("PB"), loc, "page_buf is %r" % (pb,), T_)
        e = getf(m, T_.mem, T_, "log2_ppc")
        ez = toZ(e)
        cx.ob(("C26", "C16", "C15"), "ppc-range", T_, band(ge0(addk(ez, -1)), ge0(sub(PPBz, ez))), loc)
        # header, cookie and 2^ppc-1 slots fit a page
        cx.ob(("C16", "C26", "C15"), "ppc-fits", T_, bor(eq(ez, toZ(C(1, 32))), ge0(sub(addk(p2(LPSz, 0), -20 + 132), scale(p2(ez, 0), 132)))), loc)
        # and it is the largest such value allowed by the block size
        cx.ob(("C26", "C15"), "ppc-largest", T_,
              bor(ge0(sub(ez, PPBz)), ge0(addk(sub(scale(p2(addk(ez, 1), 0), 132), addk(p2(LPSz, 0), -20 + 132)), -1))), loc)
    common_rules(r, cx)


def rules_resume(r, cx):
    m, E, eng = r.m, r.m.nm.e, r.eng
    cl = classes(r)
    P = ("C19",)
    part, parts = getattr(r, "part", (0, 1))
    for L in r.eng.loops if part == 0 else ():
        c = cl.get(L)
        if c == "scan":
            scan_loop(r, cx, L)
        elif c == "probe":
            probe_loop(r, cx, L)
        elif c == "root":
            root_loop(r, cx, L)
        elif c == "blocks":
            blocks_loop(r, cx, L, cl)
        elif c == "groups":
            groups_loop(r, cx, L, cl)
        elif c == "head":
            head_loop(r, cx, L, cl)
    for n, (T_, v) in enumerate(r.exits):
        if n % parts != part:
            continue
        evs = T_.events()
        v = T_.simp(v) if v.conds else v
        rv = cen(cv(v), 32) if isc(v) else None
        loc = next((e.loc for e in reversed(evs) if e.kind != "LOOP"), r.loc0)
        no_modify(r, cx, ("C14", "C19"), T_)
        cx.fact(("C13",), "returns-0-or-minus-1", rv in (0, -1), loc, "returns %r" % (v,), T_)
        state_kept(r, cx, ("C19",), "resume", T_, ("nand", "page_buf", "log2_ppc"), loc)
        if rv == -1:
            empty_state(r, cx, ("C19", "C13"), "failed-resume", T_, loc)
            cx.ob(("C13", "C19"), "error-set", T_, err_is(T_, E["TOO_BAD"]), loc)
            silent_root(r, cx, T_, evs, cl, loc)
        elif rv == 0:
            resumed(r, cx, T_, evs, cl, loc)
        for e in evs:
            if e.kind == "is_free":
                cx.ob(("C16",), "page-in-chip", e.st, lt_chip(e.args[1]), e.loc)
            elif e.kind == "is_bad":
                cx.ob(("C16",), "block-in-chip", e.st, rj.lt_nb(e.args[1]), e.loc)
    if part == 0:
        common_rules(r, cx)


def fin(T_):
    return T_.mem


def polled(L):
    """the page a scan polls / the page a search reads in each iteration, per back edge"""
    for i, (env, b) in enumerate(L.backs):
        d, _ = units(after(b, L))
        for e in d:
            if e.kind in ("is_free", "read"):
                yield i, b, e


def scan_loop(r, cx, L):
    """a scan polls the pages of one group one after another"""
    seen = False
    for i, b, e in polled(L):
        seen = True
        q = e.args[1]
        q0 = at_entry(L, q)
        q1 = subst(q, nextmap(L, i))
        st = b
        up = band(aligned(q0, PPCz), eq(q1, addk(q, 1)))
        dn = band(aligned(addk(q0, 1), PPCz), eq(q1, addk(q, -1)))
        cx.ob(("C19", "C18"), "scan-steps-through-group", st, bor(up, dn), e.loc)
        cx.ob(("C19",), "scan-stays-in-group", st, same(q, q0, PPCz), e.loc)
        cx.fact(("C19",), "scan-continues-on-free", e.ok is True, e.loc, "goes on after a programmed page", st)


def scanres(r, cx, T_, u, rule=True):
    """result of a scan on a path: (group start, first page polled, non-free page or None)"""
    pe = next(iter(polled(u.L)), None)
    if pe is None:
        return None
    q = pe[2].args[1]
    q0 = at_entry(u.L, q)
    if prove_lite(T_, aligned(addk(q0, 1), PPCz)) is True:
        gs = sub(addk(q0, 1), p2(PPCz, 32))
    else:
        gs = align_down(q0, PPCz)
    e = u.evs[0] if u.evs else None
    if e is not None and e.kind == "is_free" and e.ok is False and T_.decide(eq(e.args[1], q)) is True:
        return gs, q0, q
    loc = pe[2].loc
    cx.ob(("C19",), "scan-covers-group", T_, bor(eq(q, add(q0, p2(PPCz, 32))), eq(q, sub(q0, p2(PPCz, 32)))), loc)
    return gs, q0, None


def probe_loop(r, cx, L):
    """probing for a block with checkpoints goes on exactly past blocks without one"""
    m = r.m
    for i, (env, b) in enumerate(L.backs):
        d, _ = units(after(b, L))
        if not d:
            continue
        e = d[0]
        if e.kind != "is_bad":
            cx.fact(("C19",), "probe-checks-bad-first", False, e.loc, "reads before asking whether the block is bad", b)
            continue
        v = e.args[1]
        cx.ob(("C19", "C18"), "probe-next-block", b, eq(subst(v, nextmap(L, i)), addk(v, 1)), e.loc)
        rd = [x for x in d if x.kind == "read"]
        if e.ok:
            cx.fact(("C19",), "probe-leaves-bad-blocks", not rd, e.loc, "reads a bad block", b)
            continue
        cx.fact(("C19",), "probe-reads", len(rd) == 1, e.loc, "%d reads in an iteration" % len(rd), b)
        for x in rd:
            cx.ob(("C19",), "probe-first-checkpoint", b, eq(x.args[1], ckof(v)), x.loc)
            full_read(r, cx, ("C19",), x, b)
            if x.ok:
                cx.ob(("C19",), "probe-stops-at-marker", b, bnot(magic(r, x.args[1])), x.loc)


def proberes(r, cx, T_, u):
    """result of a probe on a path: (first block tried, found block or None, page)"""
    v = None
    for i, (env, b) in enumerate(u.L.backs):
        d, _ = units(after(b, u.L))
        if d and d[0].kind == "is_bad":
            v = d[0].args[1]
            loc = d[0].loc
            break
    if v is None:
        return None
    v0 = at_entry(u.L, v)
    e = u.evs
    if len(e) >= 2 and e[0].kind == "is_bad" and e[0].ok is False and e[1].kind == "read" and e[1].ok:
        B = e[0].args[1]
        cx.ob(("C19",), "found-has-marker", T_, band(magic(r, e[1].args[1]), eq(e[1].args[1], ckof(B))), e[1].loc)
        return v0, B, e[1].args[1]
    # gave up: past the last block, or all retries used
    cx.ob(("C19",), "gives-up-late", T_, bor(ge0(sub(toZ(v), NBz)), ge0(addk(sub(toZ(v), toZ(v0)), -RETRIES))), loc)
    return v0, None, None


def root_loop(r, cx, L):
    m = r.m
    for i, b, e in polled(L):
        q = e.args[1]
        q0 = at_entry(L, q)
        cx.ob(("C19", "C18"), "root-search-steps", b, eq(subst(q, nextmap(L, i)), sub(q, p2(PPCz, 32))), e.loc)
        cx.ob(("C19",), "root-search-pages", b, band(aligned(addk(q, 1), PPCz), same(q, q0, PPBz)), e.loc)
        full_read(r, cx, ("C19",), e, b)
        if e.ok:
            ep = getf(m, e.mem, b, "epoch")
            cx.ob(("C19",), "root-search-takes-first", b, bnot(band(magic(r, q), eq(pbyte(r, q, 3), ep))), e.loc)


def silent_root(r, cx, T_, evs, cl, loc):
    """giving up means that the first block found none, or that no checkpoint of the block was usable"""
    d, us = units(evs)
    if not us:
        return
    u = us[-1]
    if cl.get(u.L) == "root":
        pe = next(iter(polled(u.L)), None)
        if pe is None:
            return
        q = pe[2].args[1]
        cx.ob(("C19",), "root-search-exhausted", T_, eq(addk(q, 1), align_down(at_entry(u.L, q), PPBz)), pe[2].loc)
    elif cl.get(u.L) == "probe":
        res = proberes(r, cx, T_, u)
        if res is not None:
            cx.fact(("C19",), "no-checkpoint-at-all", res[1] is None, loc, "gives up though a checkpoint was found", T_)
            cx.ob(("C19",), "first-probe-at-0", T_, eq0(res[0]), loc)


def bsearch_roles(r, cx, L, judge):
    """(low phi key, high phi key): the bound that moves on a failing probe is the upper one"""
    var = [k for k, (f, v, e, b) in L.phis.items() if k[0] == "r" and v is not e and (v.op == "s" or k in L.shapes)]
    hi = lo = None
    for i, (env, b) in enumerate(L.backs):
        j = judge(i, b)
        if j is None:
            continue
        ch = [k for k in var if L.phis[k][3][i] is not L.phis[k][1]]
        if len(ch) == 1:
            if j:
                lo = ch[0]
            else:
                hi = ch[0]
    return lo, hi


def found_epoch(r, T_, p):
    return eq(pbyte(r, p, 3), getf(r.m, T_.mem, T_, "epoch"))


def shrinks(cx, b, lo, hi, hi1, loc):
    """the upper bound really moves down: no wrap-around below zero, in the sense the loop compares"""
    goals = [ge0(addk(sub(z(hi), z(hi1)), -1)) for z in (toZ, toZs) if prove_lite(b, ge0(sub(z(hi), z(lo)))) is True]
    if goals:
        g = goals[0]
        for x in goals[1:]:
            g = bor(g, x)
        cx.ob(("C19", "C18"), "search-ends", b, g, loc)


def blocks_loop(r, cx, L, cl):
    m = r.m
    info = {}

    def probes(b):
        d, us = units(after(b, L))
        return [proberes(r, cx, b, u) for u in us if cl.get(u.L) == "probe"], us

    for i, (env, b) in enumerate(L.backs):
        info[i] = probes(b)

    def judge(i, b):
        ps, us = info[i]
        if not ps or ps[0] is None:
            return None
        return len(ps) >= 2
    lo, hi = bsearch_roles(r, cx, L, judge)
    if lo is None or hi is None or lo == hi:
        r.eng.notes.append("block search not recognised")
        return
    L_, H_ = L.phis[lo][1], L.phis[hi][1]
    first = None
    for e, n in zip(L.entry.events(), L.entry.events()[1:]):
        if e.kind == "is_bad" and e.ok is False and n.kind == "read" and n.ok:
            first = e.args[1]
    loc = L.loc
    if first is not None:
        cx.ob(("C19",), "block-search-range", L.entry, band(eq(L.phis[lo][2], first),
              bor(eq(L.phis[hi][2], addk(NB, -1)))), loc)
    for i, (env, b) in enumerate(L.backs):
        ps, us = info[i]
        if not ps or ps[0] is None:
            continue
        mid = ps[0][0]
        l1, h1 = L.phis[lo][3][i], L.phis[hi][3][i]
        l1, h1 = b.simp(l1), b.simp(h1)
        cx.ob(("C19", "C18"), "block-search-in-range", b, band(ge0(sub(toZ(mid), toZ(L_))), ge0(sub(toZ(H_), toZ(mid)))), us[0].ev.loc)
        if len(ps) >= 2 and ps[1] is not None:
            # something newer follows: go on from there
            v0, B, p = ps[0]
            v1, B1, p1 = ps[1]
            if B is None or B1 is None:
                continue
            cx.ob(("C19",), "newer-found", b, band(found_epoch(r, b, p), found_epoch(r, b, p1), eq(v1, addk(B, 1))), us[0].ev.loc)
            cx.ob(("C19", "C18"), "search-upwards", b, band(eq(l1, B1), eq(h1, H_)), us[0].ev.loc)
        else:
            v0, B, p = ps[0]
            if B is not None:
                cx.ob(("C19",), "older-epoch", b, bnot(found_epoch(r, b, p)), us[0].ev.loc)
            cx.ob(("C19", "C18"), "search-downwards", b, band(eq(h1, addk(mid, -1)), eq(l1, L_)), us[0].ev.loc)
            shrinks(cx, b, L_, H_, h1, us[0].ev.loc)


def groups_loop(r, cx, L, cl):
    info = {}

    def scans(b):
        d, us = units(after(b, L))
        return [scanres(r, cx, b, u) for u in us if cl.get(u.L) == "scan"], us
    for i, (env, b) in enumerate(L.backs):
        info[i] = scans(b)

    def judge(i, b):
        ss, us = info[i]
        if not ss or ss[0] is None:
            return None
        return ss[0][2] is not None
    lo, hi = bsearch_roles(r, cx, L, judge)
    if lo is None or hi is None or lo == hi:
        r.eng.notes.append("group search not recognised")
        return
    L_, H_ = L.phis[lo][1], L.phis[hi][1]
    cx.ob(("C19",), "group-search-range", L.entry,
          band(eq0(L.phis[lo][2]), eq(addk(L.phis[hi][2], 1), p2(sub(PPBz, PPCz), 32))), L.loc)
    for i, (env, b) in enumerate(L.backs):
        ss, us = info[i]
        if not ss or ss[0] is None:
            continue
        gs = ss[0][0]
        idx = div(mod(gs, PPBz), PPCz)
        l1, h1 = b.simp(L.phis[lo][3][i]), b.simp(L.phis[hi][3][i])
        loc = us[0].ev.loc
        cx.ob(("C19", "C18"), "group-search-in-range", b, band(ge0(sub(toZ(idx), toZ(L_))), ge0(sub(toZ(H_), toZ(idx)))), loc)
        if ss[0][2] is None:
            cx.ob(("C19", "C18"), "group-downwards", b, band(eq(h1, addk(idx, -1)), eq(l1, L_)), loc)
        elif len(ss) >= 2 and ss[1] is not None:
            cx.ob(("C19",), "next-group", b, eq(ss[1][0], add(gs, p2(PPCz, 32))), loc)
            cx.fact(("C19",), "later-group-programmed", ss[1][2] is not None, loc, "moves past a programmed group before a free one", b)
            cx.ob(("C19", "C18"), "group-upwards", b, band(eq(l1, addk(idx, 1)), eq(h1, H_)), loc)
        else:
            cx.fact(("C19",), "group-search-evidence", False, loc, "continues without looking at the next group", b)


def head_loop(r, cx, L, cl):
    """the head moves on to the next group only when fewer than two pages trail"""
    m = r.m
    hk = ("m", m.fo("head"))
    for i, (env, b) in enumerate(L.backs):
        d, us = units(after(b, L))
        ss = [scanres(r, cx, b, u) for u in us if cl.get(u.L) == "scan"]
        if not ss or ss[-1] is None:
            continue
        gs, q0, q = ss[-1]
        loc = us[-1].ev.loc
        h1 = getf(m, b.mem, b, "head")
        end = add(gs, p2(PPCz, 32))
        cx.ob(("C19", "C20"), "head-next-group", b, band(eq(h1, end), same(h1, gs, PPBz)), loc)
        cx.ob(("C19",), "head-scan-from-end", b, eq(addk(q0, 1), end), loc)
        if q is None:
            cx.fact(("C19",), "head-skips-full-groups-only", False, loc, "skips a free group", b)
        else:
            cx.ob(("C19", "C20"), "head-skips-full-groups-only", b, ge0(addk(sub(addk(toZ(q), 2), toZ(end)), 0)), loc)


def resumed(r, cx, T_, evs, cl, loc):
    m, E, eng = r.m, r.m.nm.e, r.eng
    G = lambda f: getf(m, T_.mem, T_, f)
    rds = [e for e in evs if e.kind == "read"]
    P = ("C19",)
    if not rds:
        cx.fact(P, "resumes-from-a-read", False, loc, "success without reading a checkpoint", T_)
        return
    e = rds[-1]
    p = e.args[1]
    cx.fact(P, "checkpoint-read-ok", e.ok is True, e.loc, "uses a page whose read failed", T_)
    if not e.ok:
        return
    full_read(r, cx, P, e, T_)
    cx.ob(P, "checkpoint-position", T_, aligned(addk(p, 1), PPCz), e.loc)
    cx.ob(P, "checkpoint-marker", T_, magic(r, p), e.loc)
    cx.ob(("C19", "C25"), "resume-root", T_, eq(G("root"), addk(p, -1)), e.loc)
    h1 = G("head")
    d, us = units(evs)
    idx = {id(u): i for i, u in enumerate(us)}
    sc = [u for u in us if cl.get(u.L) == "scan"]
    hl = [u for u in us if cl.get(u.L) == "head"]
    if hl and sc and idx[id(sc[-1])] > idx[id(hl[-1])] and (cx.wants(HP)):
        res = scanres(r, _nocx, T_, sc[-1])
        if res is not None:
            for c in head_cases(r, T_, res, G("root"), h1):
                resumed1(r, cx, c, evs, cl, loc, p, us, idx, sc)
            return
    resumed1(r, cx, T_, evs, cl, loc, p, us, idx, sc)


class NoCx:
    def ob(s, *a, **k):
        pass
    fact = ob


_nocx = NoCx()
HP = ("C19", "C20", "C15", "C03", "C04")


def head_cases(r, T_, res, rt, h1):
    """the two outcomes of the last step, with what follows for the next group's start"""
    gs = res[0]
    end = add(toZ(gs), p2(PPCz, 0))
    base = T_.fork()

    def lemma(st, *gs):
        for g in gs:
            if prove(st, g) is True:
                st.learn(g)
    lemma(base, ge0(sub(toZ(CHIP32), end)), same(gs, rt, PPBz), same(h1, rt, PPBz))
    e32 = add(gs, p2(PPCz, 32))
    lemma(base, bor(bnot(aligned(e32, PPBz)), eq(blk(e32), addk(blk(rt), 1))))
    for v in (True, False):
        st = base.fork()
        if not st.assume(ge0(addk(sub(toZ(CHIP32), end), -1)), v):
            continue
        if v:
            lemma(st, aligned(e32, PPBz), bnot(same(e32, rt, PPBz)), eq(blk(e32), addk(blk(rt), 1)))
            if st.decide(aligned(e32, PPBz)) is True:
                # a multiple of the block size is the block size times its block
                st.learn(eq(end, mul(p2(PPBz, 0), div(end, PPBz))))
            lemma(st, eq(div(end, PPBz), addk(div(toZ(rt), PPBz), 1)), eq(end, mul(p2(PPBz, 0), addk(div(toZ(rt), PPBz), 1))), ge0(addk(sub(toZ(CHIP32), mul(p2(PPBz, 0), addk(div(toZ(rt), PPBz), 1))), -1)),
                  ge0(addk(sub(NBz, div(toZ(rt), PPBz)), -2)),
                  eq(e32, NBK(rt)))
        else:
            lemma(st, eq(blk(gs), addk(NB, -1)), eq(blk(rt), addk(NB, -1)))
        yield st


def resumed1(r, cx, T_, evs, cl, loc, p, us, idx, sc):
    m, E, eng = r.m, r.m.nm.e, r.eng
    P = ("C19",)
    G = lambda f: T_.simp(getf(m, T_.mem, T_, f))
    h1 = G("head")
    rt = addk(p, -1)      # the root, in the same block as its checkpoint
    left = bnot(same(h1, rt, PPBz))
    roll = band(left, eq0(h1))
    t0 = pword(p, 4)
    cx.ob(("C19", "C20"), "resume-epoch", T_, eq(G("epoch"), add(pbyte(r, p, 3), ite(roll, C(1, 8), C(0, 8)))), loc)
    push = band(left, same(h1, t0, PPBz))
    cx.ob(("C19", "C15", "C03"), "resume-tail", T_, eq(G("tail"), ite(push, NBK(t0), t0)), loc)
    cx.ob(("C19", "C15", "C20"), "resume-bb_current", T_, eq(G("bb_current"), ite(roll, C(0, 32), pword(p, 8))), loc)
    cx.ob(("C19", "C15", "C20"), "resume-bb_last", T_, eq(G("bb_last"), ite(roll, pword(p, 8), pword(p, 12))), loc)
    cx.ob(("C19", "C03"), "resume-protects", T_, eq(G("tail_sync"), G("tail")), loc)
    cx.ob(("C19", "C01"), "resume-clean", T_, eq0(G("flags")), loc)
    for f in ("recover_next", "recover_root", "recover_meta"):
        cx.ob(("C19", "C06"), "resume-" + f, T_, eq(G(f), C(NONE, 32)), loc)
    cleared(r, cx, ("C19", "C02"), "resume-metadata-cleared", T_, pbc(r, T_.buf), loc)
    cx.ob(("C19", "C12", "C15"), "resume-cookie", T_, eq(eng.rd32(T_, pbc(r, T_.buf), C(HDR, 64)), pword(p, HDR)), loc)
    # head: in the checkpoint's block, or at the start of the next one
    cx.ob(("C19", "C20"), "resume-head-block", T_, bor(bnot(left), eq(h1, NBK(rt))), loc)
    cx.ob(("C19", "C04", "C20"), "resume-head-user-page", T_, upage(h1), loc)
    cx.ob(("C16", "C19"), "resume-head-in-chip", T_, lt_chip(h1), loc)
    # ---- the head follows the last programmed page -------------------------------
    ru = [u for u in us if cl.get(u.L) == "root"]
    rootu = ru[-1] if ru else None
    pe = next(iter(polled(rootu.L)), None) if rootu else None
    LG = None
    if pe is not None:
        q = pe[2].args[1]
        LG = addk(sub(at_entry(rootu.L, q), p2(PPCz, 32)), 1)     # start of the last group
    else:
        r.eng.notes.append("root search not recognised")
        return
    hs = [u for u in sc if idx[id(u)] > idx[id(rootu)]]
    if hs:
        res = scanres(r, cx, T_, hs[-1])
        if res is not None:
            gs, q0, q = res
            end = add(gs, p2(PPCz, 32))
            nxt = ite(ult(end, CHIP32), end, C(0, 32))
            if q is None:
                cx.ob(("C19", "C04", "C20"), "head-first-free", T_, eq(h1, gs), hs[-1].ev.loc)
            else:
                room = ge0(sub(addk(toZ(end), -3), toZ(q)))
                cx.ob(("C19", "C04", "C20"), "head-first-free", T_, eq(h1, ite(room, addk(q, 1), nxt)), hs[-1].ev.loc)
            cx.ob(("C19",), "head-scan-from-end", T_, eq(addk(q0, 1), end), hs[-1].ev.loc)
        hl = [u for u in us if cl.get(u.L) == "head"]
        if hl:
            cx.ob(("C19",), "head-search-start", T_, same(at_entry(hl[-1].L, res[0]), LG, PPCz) if res else TRUE, hl[-1].ev.loc)
    # ---- the block is the newest of the epoch ----------------------------------------
    B = blk(p)
    pr = [(u, proberes(r, cx, T_, u)) for u in us if cl.get(u.L) == "probe"]
    pr = [x for x in pr if x[1] is not None]
    bl = [u for u in us if cl.get(u.L) == "blocks"]
    if pr and bl:
        ep0 = sub(G("epoch"), ite(roll, C(1, 8), C(0, 8)))
        cx.ob(("C19",), "first-probe-at-0", T_, eq0(pr[0][1][0]), pr[0][0].ev.loc)
        fnd = [x for x in pr if x[1][1] is not None and T_.decide(eq(shl(x[1][1], PPBz), align_down(p, PPBz))) is not False]
        good = None
        for x in fnd:
            if prove(T_, band(eq(x[1][1], B), eq(pbyte(r, x[1][2], 3), ep0))) is True:
                good = x
        if good is None:
            cx.ob(("C19",), "block-has-epoch", T_, bor(*[band(eq(x[1][1], B), eq(pbyte(r, x[1][2], 3), ep0)) for x in fnd]) if fnd else FALSE, loc)
        else:
            cx.ob(("C19",), "block-has-epoch", T_, TRUE, loc)
            u, (v0, F, fp) = good
            later = pr[pr.index(good) + 1:]
            Lb = bl[-1].L
            inb = idx[id(u)] > idx[id(bl[-1])]
            if inb:
                if later:
                    w = later[0][1]
                    none = TRUE if w[1] is None else bnot(eq(pbyte(r, w[2], 3), ep0))
                    cx.ob(("C19",), "newest-block", T_, band(eq(w[0], addk(F, 1)), none), later[0][0].ev.loc)
                else:
                    cx.ob(("C19",), "newest-block", T_, ge0(sub(addk(toZ(F), 1), NBz)), u.ev.loc)
            else:
                # the search range was used up without a hit
                var = [Lb.phis[k][1] for k in Lb.phis if k[0] == "r" and Lb.phis[k][1] is not Lb.phis[k][2]]
                emp = [ult(a, b) for a in var for b in var if a is not b]
                if later:
                    w = later[0][1]
                    none = TRUE if w[1] is None else bnot(eq(pbyte(r, w[2], 3), ep0))
                    emp.append(band(eq0(w[0]), none))
                if var:
                    cx.ob(("C19",), "newest-block", T_, bor(*emp), u.ev.loc)
    else:
        r.eng.notes.append("block search not recognised")
    # ---- and the group the last programmed one ----------------------------------------
    gl = [u for u in us if cl.get(u.L) == "groups"]
    if gl:
        gsn = [u for u in sc if idx[id(gl[-1])] < idx[id(u)] < idx[id(rootu)]]
        ss = [scanres(r, cx, T_, u) for u in gsn]
        loc2 = gl[-1].ev.loc
        if any(x is None for x in ss):
            pass
        elif not ss:
            var = [gl[-1].L.phis[k][1] for k in gl[-1].L.phis if gl[-1].L.phis[k][1] is not gl[-1].L.phis[k][2]]
            emp = [slt(a, b) for a in var for b in var if a is not b]
            cx.ob(("C19",), "last-group", T_, band(eq(LG, shl(B, PPBz)), bor(*emp)), loc2)
        else:
            cx.ob(("C19",), "last-group", T_, band(eq(LG, ss[0][0]), C(1 if ss[0][2] is not None else 0, 1)), loc2)
            if len(ss) >= 2:
                cx.ob(("C19",), "last-group-next", T_, band(eq(ss[1][0], add(LG, p2(PPCz, 32))), C(1 if ss[1][2] is None else 0, 1)), loc2)
            else:
                cx.ob(("C19",), "last-group-next", T_, aligned(add(LG, p2(PPCz, 32)), PPBz), loc2)
    else:
        r.eng.notes.append("group search not recognised")


# -- every loop has a bound -------------------------------------------------------
def loop_bounds(r, cx, extra=()):
    """each loop: a bound on its iterations, or a range that shrinks on every one"""
    if not cx.wants(("C18",)):
        return
    for L in r.eng.loops:
        if not L.backs or not L.stable:
            continue
        one_loop(r, cx, L, extra)


def one_loop(r, cx, L, extra):
    P = ("C18",)
    z1 = addk(toZ(L.it), 1)
    ks = [("retry count", C(RETRIES, 0)), ("pages of a group", p2(PPCz, 0)), ("pages of a block", p2(PPBz, 0)),
          ("groups of a block", p2(sub(PPBz, PPCz), 0)), ("blocks", addk(NBz, 1)),
          ("bits of a size", C(24, 0))] + list(extra)
    for nm, K in ks:
        if all(prove_lite(b, ge0(sub(K, z1))) is True for e, b in L.backs):
            for e, b in L.backs:
                cx.ob(P, "loop-bound", b, ge0(sub(K, z1)), L.loc)
            return
    var = [(k, v, bv) for k, (f, v, e, bv) in L.phis.items() if v is not e and v.op in ("s", "lin") and v.w in (32, 8)
           and None not in bv]
    for i, (k, A, av) in enumerate(var):
        for j, (k2, B, bv) in enumerate(var):
            if i == j or k[0] != "r" or k2[0] != "r":
                continue
            for cvt in (toZs, toZ):
                gap = sub(cvt(B), cvt(A))
                goals = [(b, band(ge0(gap), ge0(addk(sub(gap, sub(cvt(b.simp(bv[n])), cvt(b.simp(av[n])))), -1))))
                         for n, (e, b) in enumerate(L.backs)]
                if all(prove_lite(b, g) is True or prove(b, g) is True for b, g in goals):
                    for b, g in goals:
                        cx.ob(P, "loop-range-shrinks", b, g, L.loc)
                    return
    for k, A, av in var:
        goals = [(b, band(ge0(addk(sub(toZ(b.simp(av[n])), toZ(A)), -1)), lt_chip(b.simp(av[n]))))
                 for n, (e, b) in enumerate(L.backs)]
        if all(prove_lite(b, g) is True or prove(b, g) is True for b, g in goals):
            for b, g in goals:
                cx.ob(P, "loop-advances", b, g, L.loc)
            return
    # no measure found: does anything that changes take part in staying in the loop?
    at = {L.it}
    for k, (f, v, e, bv) in L.phis.items():
        if v is not e:
            at |= allatoms([v]) - allatoms([e])
    head = L.head.facts if L.head is not None else {}
    for e, b in L.backs:
        used = [f for f, v in b.facts.items() if f not in head and not at.isdisjoint(allatoms([f]))]
        if not used:
            cx.fact(P, "loop-bound", False, L.loc, "nothing that changes from one iteration to the next limits the loop", b)
            return
    cx.out.append(Rec("C18", "loop-bound", L.loc, cx.func + cx.label, UNDECIDED, "no measure found for the loop"))


rj.RULES["dhara_journal_resume"] = rules_resume
rj.RULES["dhara_journal_init"] = rules_init
