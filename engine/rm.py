"""Rules over the map layer (struct dhara_map on top of the journal's contract)."""
import terms
import rj
from ir import AnalysisBroken
from terms import *
from absint import *
from model import *
from oblig import *
import mm

MODIFY = ("jenq", "jcopy", "jdeq", "jpeek", "jnext", "jclear", "jresume", "jinit", "mgc", "mtrim", "mcopy", "mwrite", "msync", "mclear")
MK = S("k", 32, 0, 31)
EC = {}


def Z64(t):
    return zext(t, 64)


def noneq(t):
    return eq(t, C(NONE, t.w))


class Trace:
    """a loop that walks down the tree: P is the page reached after `it` bits"""
    __slots__ = ("L", "P", "key", "T", "ok")


def body(L, T_):
    evs = T_.events()
    for i in range(len(evs) - 1, -1, -1):
        if evs[i].kind == "LOOP" and evs[i].extra is L:
            return evs[i + 1:]
    return []


class Map:
    """the analysed function with its loops sorted out"""

    def __init__(s, r, cx):
        s.r, s.cx, s.m, s.eng = r, cx, r.m, r.eng
        EC.update(r.m.nm.e)
        s.traces, s.recov, s.retry, s.noerr = {}, [], [], False
        for L in s.eng.loops:
            if not L.stable or not L.backs:
                continue
            evs = [e for _, b in L.backs for e in body(L, b)]
            kinds = {e.kind for e in evs}
            if kinds & set(MODIFY):
                (s.recov if "jnext" in kinds else s.retry).append(L)
            elif "jread" in kinds:
                t = s.trace(L)
                if t is not None:
                    s.traces[id(L)] = t
        for t in s.traces.values():
            cx.free.add(t.P)
            cx.free.add(t.L.it)
        for L in s.eng.loops:
            if L.stable and L.backs and L not in s.recov and L not in s.retry:
                cx.free.add(L.it)
        for L in s.recov:
            cn = s.counter(L)
            if cn is not None:
                cx.free.add(cn[0])
        s.finals = [(st, v, None) for st, v in r.exits]
        s.backs = [(b, L) for L in s.eng.loops if L.stable for _, b in L.backs]
        seen, s.events = set(), []
        for st in [x[0] for x in s.finals] + [b for b, L in s.backs]:
            for e in st.events():
                if id(e) not in seen:
                    seen.add(id(e))
                    s.events.append(e)

    # -- the tree walk ------------------------------------------------------------
    def meta(s, st, p, off):
        return s.eng.rd32(st, Content(("space", "META", (p,))), off)

    def alt(s, st, p, it):
        return s.meta(st, p, addk(scale(Z64(it), 4), 4))

    def idw(s, st, p):
        return s.meta(st, p, C(0, 64))

    def differ(s, st, t, p, it):
        return bnot(eq0(mod(div(bxor2(t, s.idw(st, p)), toZ(sub(C(31, 32), it))), C(1, 0))))

    def trace(s, L):
        pages = [e.args[1] for _, b in L.backs for e in body(L, b) if e.kind == "jread"]
        for k, (f, v, ent, bv) in L.phis.items():
            if v.op == "s" and v is not ent and v.w == 32 and any(p is v or any(p is x for x in bv) for p in pages):
                t = Trace()
                t.L, t.P, t.key = L, v, k
                t.T = s.target(t)
                s.cx.segok.add("seg:" + L.it.a[0])
                return t
        s.eng.notes.append("loop at %s:%d reads metadata but is not recognised as a walk down the tree" % L.loc)
        return None

    def target(s, t):
        """the sector looked for: what the identity of the current page is compared with"""
        own = s.idw(t.L.head, t.P)
        cand = []
        for _, b in t.L.backs:
            for f in b.facts:
                if f in t.L.head.facts:
                    continue
                sub_ = subterms(f)
                if own not in sub_:
                    continue
                for x in sub_:
                    if x.w == 32 and x is not own and (x in (S("target", 32), S("source", 32)) or
                                                       (x.op == "word" and x.a[0] == "META" and t.P not in allatoms([x]))):
                        cand.append(x)
        if not cand:
            return S("target", 32)
        return max(set(cand), key=lambda x: (cand.count(x), repr(x)))

    def trace_rules(s, t):
        cx, L, P, T = s.cx, t.L, t.P, t.T
        f, v, ent, bv = L.phis[t.key]
        pr = ("C08", "C09", "C11")
        cx.ob(pr, "lookup-starts-at-newest", L.entry, eq(ent, s.m.jget(L.entry.mem, L.entry, "root")), L.loc)
        for i, (e, b) in enumerate(L.backs):
            nx = b.simp(bv[i])
            d = s.differ(b, T, P, L.it)
            cx.ob(pr, "lookup-follows-differing-bit", b, implies(d, eq(nx, s.alt(b, P, L.it))), L.loc)
            cx.ob(pr, "lookup-stays-on-equal-bit", b, implies(bnot(d), eq(nx, P)), L.loc)
            cx.ob(("C08",), "lookup-passes-filler", b, bnot(noneq(s.idw(b, P))), L.loc)
            cx.ob(("C08", "C16", "C18"), "lookup-depth", b, ge0(addk(neg(toZ(L.it)), 31)), L.loc)
            for o, alts in L.segalts.items():
                bf = L.bufforms.get(o)
                if bf is None or bf[0] != "seg" or bf[2] != 4 or bf[3] != 4:
                    continue
                for j, w in alts:
                    if j == i:
                        w = b.simp(w)
                        cx.ob(("C09", "C10", "C11"), "path-slot-differs", b, implies(d, eq(w, P)), L.loc)
                        cx.ob(("C09", "C10", "C11"), "path-slot-equal", b, implies(bnot(d), eq(w, s.alt(b, P, L.it))), L.loc)
            for o, bf in L.bufforms.items():
                if bf[0] == "seg" and o in L.segalts:
                    cx.ob(("C09", "C15"), "path-slots-in-bit-order", L.head, band(eq(bf[1] if isinstance(bf[1], T_) else C(bf[1], 64), C(4, 64)),
                                                                                  C(1 if bf[2] == 4 and bf[3] == 4 else 0, 1)), L.loc)
        for e, b in list(L.backs):
            for ev in body(L, b):
                if ev.kind == "jread":
                    cx.ob(("C08",), "missing-page-not-read", ev.st, bnot(noneq(ev.args[1])), ev.loc)

    def walk(s, evs):
        """(trace loop, events after it) since the tree last changed; (None, events since then)"""
        start = 0
        for i, e in enumerate(evs):
            if e.kind in MODIFY or (e.kind == "LOOP" and (e.extra in s.recov or e.extra in s.retry)):
                start = i + 1
            if e.kind.startswith("other:"):
                start = i + 1
        t = None
        for i in range(start, len(evs)):
            e = evs[i]
            if e.kind == "LOOP" and id(e.extra) in s.traces:
                t, start = s.traces[id(e.extra)], i + 1
        return t, evs[start:]

    def nf(s, st, t, mem=None):
        """the walk ended without finding the sector"""
        if t is None:
            return noneq(s.m.jget(mem or st.mem, st, "root"))
        it, P = t.L.it, t.P
        e = s.idw(st, P)
        return band(ge0(addk(neg(toZ(it)), 31)),
                    bor(noneq(e), band(s.differ(st, t.T, P, it), noneq(s.alt(st, P, it)))))

    def found(s, st, t):
        return FALSE if t is None else ge0(addk(toZ(t.L.it), -32))

    def is_found(s, st, t):
        return t is not None and prove(st, s.found(st, t)) is True

    def failed_since(s, evs):
        return [e for e in evs if e.ok is False]

    # -- pieces of obligations --------------------------------------------------------
    def count0(s):
        return S("count", 32)

    def count(s, mem, st):
        return s.m.mget(mem, st, "count")

    def cookie(s, ev):
        return s.eng.rd32(ev.st, ev.buf.get("PB", s.eng.bufobjs["PB"]), C(HDR, 64))

    def mbuf(s, ev, i):
        p = ev.args[i]
        if p.op != "ptr" or not isc(p.a[1]) or cv(p.a[1]) != 0:
            return None
        return ev.buf.get(p.a[0], s.eng.bufobjs.get(p.a[0]))

    def mword(s, st, c, k):
        return s.eng.rd32(st, c, addk(scale(Z64(k), 4), 4) if isinstance(k, T_) else C(4 + 4 * k, 64))

    def seg(s, t, k):
        return fn("seg:" + t.L.it.a[0], 32, scale(Z64(k), 4))

    def path_slots(s, ev, c, t, found, props):
        """the 32 pointers describe the path walked, then nothing"""
        cx, st = s.cx, ev.st
        if t is not None:
            a = st.fork()
            a.assume(ge0(addk(sub(toZ(t.L.it), toZ(MK)), -1)))
            cx.ob(props, "slots-of-walked-levels", a, eq(s.mword(a, c, MK), s.seg(t, MK)), ev.loc)
            if found:
                return
            b = st.fork()
            b.assume(ge0(addk(neg(toZ(t.L.it)), 31)))
            last = s.mword(b, c, t.L.it)
            here = band(bnot(noneq(s.idw(b, t.P))), s.differ(b, t.T, t.P, t.L.it))
            cx.ob(props, "slot-of-last-level", b, eq(last, ite(here, t.P, C(NONE, 32))), ev.loc)
            d = st.fork()
            d.assume(ge0(addk(sub(toZ(MK), toZ(t.L.it)), -1)))
            cx.ob(props, "slots-below-path-empty", d, noneq(s.mword(d, c, MK)), ev.loc)
        else:
            cx.ob(props, "slots-of-empty-tree", st, noneq(s.mword(st, c, MK)), ev.loc)

    def fresh_tree(s, ev, t, props):
        if t is not None:
            cx = s.cx
            e = t.L.entry
            cx.ob(props, "path-of-current-tree", ev.st, eq(s.m.jget(ev.mem, ev.st, "root"), s.m.jget(e.mem, ev.st, "root")), ev.loc)

    def no_failure(s, ev, evs, props, what):
        for e in s.failed_since(evs):
            s.cx.ob(props, what, ev.st, FALSE, ev.loc, extra="%s failed at %s:%d" % (e.kind, e.loc[0], e.loc[1]))

    def cookie_rule(s, ev, delta=0):
        s.cx.ob(("C12", "C15"), "persisted-count", ev.st, eq(s.cookie(ev), addk(s.count(ev.mem, ev.st), delta)), ev.loc)

    # -- the events --------------------------------------------------------------------
    def classify(s, ev):
        st = ev.st
        if ev.kind == "jenq":
            d = ev.args[1]
            if d.op == "ptr" and d.a[0] == "DATA":
                return "primary"
            return "filler"
        src = ev.args[1]
        if src is page("srcpage"):
            return "primary"
        src = st.simp(src)
        if any(x.op == "fn" and x.a[0].startswith("seg:") for x in subterms(src)):
            return "trim"
        offered = [e for e in st.events() if e.kind in ("jpeek", "jnext")]
        for e in offered:
            if e.extra is src and not isc(src):
                return "gc"
        if st.decide(eq(src, s.m.jget(ev.mem, st, "root"))) is True:
            return "pad"
        if s.r.func == "dhara_map_trim" and not any(e.kind == "LOOP" and e.extra in s.recov for e in st.events()):
            return "trim"
        return "gc" if offered and not isc(offered[-1].extra) else "pad"

    def write_event(s, ev):
        cls = s.classify(ev)
        ev.tag = cls
        cx, st = s.cx, ev.st
        evs = st.events()
        if evs and evs[-1] is ev:
            evs = evs[:-1]
        t, since = s.walk(evs)
        if cls == "filler":
            isnull = all(a.op != "ptr" or a.a[0] == "null" or (isc(a) and cv(a) == 0) for a in ev.args[1:3])
            cx.ob(("C09", "C11", "C07"), "filler-only-in-empty-map", st, noneq(s.m.jget(ev.mem, st, "root")), ev.loc)
            s.cookie_rule(ev)
            return
        if cls == "pad":
            cx.ob(("C11", "C09"), "pad-rewrites-newest", st, eq(ev.args[1], s.m.jget(ev.mem, st, "root")), ev.loc)
            c = s.mbuf(ev, 2)
            if c is None:
                cx.fact(("C09", "C11"), "pad-has-metadata", False, ev.loc, "no metadata buffer", st)
            else:
                o = scale(Z64(MK), 4)
                cx.ob(("C11", "C09", "C15"), "pad-keeps-metadata", st, band(eq(s.eng.rd32(st, c, o), s.meta(st, ev.args[1], o)),
                                                                        eq(s.eng.rd32(st, c, C(128, 64)), s.meta(st, ev.args[1], C(128, 64)))), ev.loc)
            s.cookie_rule(ev)
            s.no_failure(ev, since, ("C13", "C11"), "pad-after-failure")
            return
        c = s.mbuf(ev, 2)
        if c is None:
            cx.fact(("C09",), "page-has-metadata", False, ev.loc, "page written without a metadata buffer", st)
            return
        idw = s.eng.rd32(st, c, C(0, 64))
        if cls == "primary":
            T = S("target", 32)
            found = s.is_found(st, t)
            cx.ob(("C09", "C15"), "metadata-names-sector", st, eq(idw, T), ev.loc)
            if ev.kind == "jenq":
                cx.ob(("C09", "C22"), "payload-is-callers", st, eq(ev.args[1].a[1], C(0, 64)), ev.loc)
            s.fresh_tree(ev, t, ("C09", "C07"))
            s.no_failure(ev, since, ("C13", "C09", "C08"), "written-after-failed-lookup")
            if not found:
                cx.ob(("C12", "C09", "C08"), "new-sector-only-if-absent", st, s.nf(st, t, ev.mem), ev.loc)
            if t is not None:
                cx.fact(("C09",), "path-of-written-sector", t.T is T, ev.loc, "metadata built for another sector", st)
            s.path_slots(ev, c, t, found, ("C09",))
            cx.ob(("C12",), "count-of-new-sector", st, eq(s.count(ev.mem, st), addk(s.count0(), 0 if found else 1)), ev.loc)
            s.cookie_rule(ev)
            caps = [e for e in evs if e.kind == "mcap"]
            if not found:
                cx.ob(("C12",), "new-sector-within-capacity", st, ult(s.count0(), caps[-1].extra) if caps else FALSE, ev.loc)
            s.autogc(ev, evs)
            return
        if cls == "gc":
            src = ev.args[1]
            T = s.idw(st, src)
            pr = ("C11", "C09")
            off = [e for e in evs if e.kind in ("jpeek", "jnext")]
            if off:
                cx.ob(("C11",), "relocates-offered-page", st, eq(src, off[-1].extra), ev.loc)
            cx.ob(pr, "relocated-page-is-live", st, band(bnot(noneq(T)), s.found(st, t), eq(t.P, src) if t else FALSE), ev.loc)
            if t is not None:
                cx.fact(pr, "lookup-of-relocated-sector", t.T is T, ev.loc, "looked up another sector: " + show(t.T), st)
            cx.ob(pr + ("C15",), "relocated-page-keeps-sector", st, eq(idw, T), ev.loc)
            s.fresh_tree(ev, t, pr + ("C07",))
            s.path_slots(ev, c, t, True, pr)
            s.no_failure(ev, since, ("C13", "C11"), "relocated-after-failure")
            s.cookie_rule(ev)
            return
        # trim: the nearest cousin takes over
        src = ev.args[1]
        pr = ("C10", "C09")
        s.fresh_tree(ev, t, pr)
        cx.ob(pr, "trim-of-mapped-sector", st, s.found(st, t), ev.loc)
        s.no_failure(ev, since, ("C13", "C10"), "trim-after-failure")
        cx.ob(pr, "cousin-keeps-sector", st, eq(idw, s.idw(st, src)), ev.loc)
        cx.ob(pr, "cousin-exists", st, bnot(noneq(src)), ev.loc)
        s.cookie_rule(ev, -1)
        sg = [x for x in subterms(src) if x.op == "fn" and t is not None and x.a[0] == "seg:" + t.L.it.a[0]]
        if t is None or not sg:
            if t is not None:
                cx.fact(pr, "cousin-from-path", False, ev.loc, "rewritten page is not one of the path's pointers", st)
            return
        cx.fact(pr, "trim-looks-up-sector", t.T is S("target", 32), ev.loc, "looked up another sector", st)
        idx = sg[0].a[1] if not isinstance(sg[0].a[1], tuple) else sg[0].a[1][0]
        lv = quarter(idx)
        cx.ob(pr, "cousin-from-path", st, eq(src, fn("seg:" + t.L.it.a[0], 32, idx)), ev.loc)
        cx.ob(pr, "cousin-level", st, band(ge0(addk(neg(toZs(lv)), 31)), ge0(toZs(lv))), ev.loc)
        a = st.fork()
        a.assume(ge0(addk(sub(toZs(lv), toZ(MK)), -1)))
        cx.ob(pr, "upper-slots-of-trimmed-path", a, eq(s.mword(a, c, MK), s.seg(t, MK)), ev.loc)
        cx.ob(pr, "pointer-to-trimmed-cleared", st, noneq(s.mword(st, c, lv)), ev.loc)
        d = st.fork()
        d.assume(ge0(addk(sub(toZ(MK), toZs(lv)), -1)))
        cx.ob(pr, "lower-slots-of-cousin", d, eq(s.mword(d, c, MK), s.alt(d, src, MK)), ev.loc)
        s.closest(ev, evs, t, lv)
        s.autogc(ev, evs)

    def searches(s, evs, t):
        """loops after the walk that scan the path's pointers"""
        out = []
        on = False
        for e in evs:
            if e.kind == "LOOP":
                if e.extra is t.L:
                    on = True
                elif on and e.extra.backs:
                    out.append(e.extra)
        return out

    def closest(s, ev, evs, t, lv):
        """every pointer below the chosen one is empty"""
        cx, st = s.cx, ev.st
        for L in s.searches(evs, t):
            if st.decide(eq(lv, sub(C(31, 32), L.it))) is True or prove_lite(st, eq(lv, sub(C(31, 32), L.it))) is True:
                for e, b in L.backs:
                    cx.ob(("C10",), "nearest-cousin", b, noneq(fn("seg:" + t.L.it.a[0], 32, addk(scale(Z64(L.it), -4), 124))), L.loc)
                return
        # no search loop: the lowest level itself
        cx.ob(("C10",), "nearest-cousin", st, eq(lv, C(31, 32)), ev.loc)

    def autogc(s, ev, evs):
        """collection runs before a write exactly when the journal has grown to the map's capacity"""
        cx, st = s.cx, ev.st
        sz = [e for e in evs if e.kind == "jsize"]
        if not sz:
            cx.fact(("C11",), "automatic-collection", False, ev.loc, "written without checking the journal's size", st)
            return
        i = evs.index(sz[-1])
        caps = [e for e in evs if e.kind == "mcap"]
        near = min(caps, key=lambda e: abs(evs.index(e) - i)) if caps else None
        if near is None:
            cx.fact(("C11",), "automatic-collection", False, ev.loc, "written without comparing with the capacity", st)
            return
        gcs = [e for e in evs if e.kind == "LOOP" and any(x.kind == "mgc" for _, b in e.extra.backs for x in body(e.extra, b))]
        full = bnot(ult(sz[-1].extra, near.extra))
        one = [e for e in evs if e.kind == "mgc"]
        if gcs:
            L = gcs[-1].extra
            n = toZ(L.it)
            if all(len([x for x in body(L, b) if x.kind == "mgc"]) == 1 for _, b in L.backs):
                cx.ob(("C11",), "collection-count", st, band(full, eq0(sub(add(n, C(len(one), 0)), addk(toZ(S("gc_ratio", 8)), 1)))), ev.loc)
        elif one:
            cx.ob(("C11",), "collection-count", st, FALSE, ev.loc, extra="%d collections" % len(one))
        else:
            cx.ob(("C11",), "collection-when-full", st, bnot(full), ev.loc)

    # -- evidence that a page may go ------------------------------------------------------
    def evidence(s, st, p, evs, loc, rule, extra=()):
        """page p was found obsolete, or rewritten, in events evs (all after p was offered)"""
        cx = s.cx
        pr = ("C11",) + tuple(extra)
        for e in evs:
            if e.kind == "jcopy" and e.ok and st.decide(eq(e.args[1], p)) is True:
                return
        t, since = s.walk(evs)
        for e in evs:
            if e.ok is False:
                cx.ob(pr, rule, st, FALSE, loc, extra="%s failed at %s:%d" % (e.kind, e.loc[0], e.loc[1]))
        if t is None:
            cx.ob(pr, rule, st, bor(noneq(s.idw(st, p)), noneq(s.m.jget(st.mem, st, "root"))), loc)
            return
        same_t = C(1 if t.T is s.idw(st, p) else 0, 1)
        cx.ob(pr, rule, st, bor(noneq(s.idw(st, p)), band(same_t, bor(s.nf(st, t), band(s.found(st, t), bnot(eq(t.P, p)))))), loc)

    def after_offer(s, evs):
        for i in range(len(evs) - 1, -1, -1):
            if evs[i].kind in ("jpeek", "jnext"):
                return evs[i], evs[i + 1:]
            if evs[i].kind == "LOOP" and (evs[i].extra in s.recov or evs[i].extra in s.retry):
                return None, evs[i + 1:]
        return None, evs

    def dequeue_event(s, ev):
        cx, st = s.cx, ev.st
        evs = [e for e in st.events() if e is not ev]
        of, since = s.after_offer(evs)
        if of is None or of.kind != "jpeek":
            cx.fact(("C11",), "dequeue-after-peek", False, ev.loc, "page dropped from the tail without looking at it", st)
            return
        cx.ob(("C11",), "dequeue-after-peek", st, bnot(noneq(of.extra)), ev.loc)
        cx.fact(("C11",), "one-dequeue-per-page", not any(e.kind == "jdeq" for e in since), ev.loc, "two pages dropped", st)
        s.evidence(st, of.extra, since, ev.loc, "dropped-page-is-dead-or-moved")

    # -- recovery -----------------------------------------------------------------------
    def flagbit(s, mem, st, b):
        return fbit(s.m.jget(mem, st, "flags"), b)

    def counter(s, L):
        """the loop variable that counts failed rounds: (value, step, back values)"""
        fails = [any(e.ok is False for e in body(L, b)) for _, b in L.backs]
        if not any(fails):
            return None
        for k, (f, v, ent, bv) in L.phis.items():
            if v.op != "s" or v is ent or v.w != 32 or None in bv:
                continue
            for d in (1, -1):
                if all((x is addk(v, d)) if fl else (x is v) for x, fl in zip(bv, fails)):
                    return v, d, bv, ent
        return None

    def recovery_rules(s, L):
        cx = s.cx
        cn = s.counter(L)
        for i, (e, b) in enumerate(L.backs):
            evs = body(L, b)
            of, since = s.after_offer(evs)
            bad = [x for x in evs if x.ok is False]
            loc = evs[-1].loc if evs else L.loc
            if bad:
                cx.ob(("C07", "C13"), "restarts-only-for-recovery", b, eq(bad[-1].extra, C(EC["RECOVER"], 32)), bad[-1].loc)
                if cn is None:
                    cx.fact(("C07", "C18"), "restart-limit", False, L.loc, "restarts of recovery are not counted", b)
                else:
                    v, d, bv, ent = cn
                    n = sub(toZs(v), toZs(ent)) if d > 0 else sub(toZs(ent), toZs(v))
                    cx.ob(("C07", "C18"), "restart-limit", b, ge0(addk(neg(n), RETRIES - 1)), L.loc)
                continue
            if of is None:
                cx.fact(("C07",), "recovery-offers", False, loc, "a round of recovery without asking for the next page", b)
                continue
            p = of.extra
            if b.decide(noneq(p)) is True:
                moved = [x for x in since if x.kind in ("jenq", "jcopy") and x.ok]
                cx.fact(("C07",), "recovery-pads", bool(moved), loc, "nothing was written although no page is left to relocate", b)
            else:
                s.evidence(b, p, since, loc, "passed-page-is-dead-or-moved", ("C07",))

    def restart_exit(s, st, evs, L):
        """exit from recovery with failing event: TOO_BAD only after the documented number of restarts"""
        cn = s.counter(L)
        if cn is None:
            return FALSE
        v, d, bv, ent = cn
        n = sub(toZs(v), toZs(ent)) if d > 0 else sub(toZs(ent), toZs(v))
        return ge0(addk(n, -RETRIES))

    def retry_rules(s, L):
        """loops that try a modification again"""
        cx = s.cx
        for e, b in L.backs:
            evs = body(L, b)
            bad = [x for x in evs if x.ok is False]
            loc = bad[-1].loc if bad else (evs[-1].loc if evs else L.loc)
            if bad:
                cx.ob(("C07", "C13", "C18"), "retry-only-for-recovery", b, eq(bad[-1].extra, C(EC["RECOVER"], 32)), loc)
                cx.ob(("C07",), "recovery-finished-before-retry", b, bnot(s.flagbit(b.mem, b, F_RECOVERY)), loc)
                for x in bad[:-1]:
                    cx.ob(("C13",), "failure-not-swallowed", b, FALSE, x.loc)
            cx.ob(("C12",), "count-kept-by-failed-attempt", b, eq(s.count(b.mem, b), s.count0()), loc)

    # -- errors --------------------------------------------------------------------------
    def exit_errors(s, st, v, special=()):
        """return value and error code of one exit.  special: [(condition, code)] of
        documented errors which no failing call causes"""
        cx = s.cx
        evs = st.events()
        loc = evs[-1].loc if evs else s.r.loc0
        cut = 0
        for i, e in enumerate(evs):
            if e.kind == "LOOP" and e.extra in s.retry:
                cut = i + 1
        bad = [e for e in evs[cut:] if e.ok is False]
        v = st.simp(v) if v.conds else v
        rv = cen(cv(v), 32) if isc(v) else None
        if rv is None:
            cx.ob(("C13",), "return-value", st, bor(eq(v, C(0, 32)), eq(v, C(-1, 32))), loc)
            return None
        if rv == 0:
            for e in bad:
                cx.ob(("C13",), "failure-not-swallowed", st, FALSE, loc, extra="%s failed at %s:%d" % (e.kind, e.loc[0], e.loc[1]))
            return 0
        cx.ob(("C13",), "return-value", st, eq(v, C(-1, 32)), loc)
        if s.noerr:
            return -1
        if bad:
            e = bad[-1]
            want = eq(s.err(st), e.extra)
            rec = [x for x in evs if x.kind == "LOOP" and x.extra in s.recov]
            if rec and e.kind in ("jenq", "jcopy"):
                again = eq(e.extra, C(EC["RECOVER"], 32))
                lim = s.restart_exit(st, evs, rec[-1].extra)
                want = bor(band(bnot(again), want), band(again, eq(s.err(st), C(EC["TOO_BAD"], 32)), lim))
            cx.ob(("C13", "C08" if e.kind == "jread" else "C07"), "error-is-cause", st, want, loc)
        else:
            cx.ob(("C13",), "error-is-documented", st, bor(*[band(c, eq(s.err(st), C(EC[k], 32))) for c, k in special]) if special else FALSE, loc)
        if s.r.func != "dhara_map_resume":
            cx.ob(("C07",), "recovery-never-surfaces", st, bnot(eq(s.err(st), C(EC["RECOVER"], 32))), loc)
        return -1

    def err(s, st):
        return C(EC["NOT_FOUND"], 32) if s.noerr else rj.errv(st)

    def unchanged(s, st, props, loc, fields=JF, count=True):
        cx, m = s.cx, s.m
        for f in fields:
            k = m.fo(f)
            v1, v0 = st.mem.get(k), s.r.st0.mem.get(k)
            if v1 is v0 or v1 is None:
                continue
            v1 = st.simp(v1)
            v0 = m.jget(s.r.st0.mem, st, f)
            if v1 is v0:
                continue
            if v1.op == "ptr" or v0.op == "ptr":
                cx.fact(props, "unchanged-" + f, False, loc, f + " changed", st)
            else:
                cx.ob(props, "unchanged-" + f, st, eq(v1, v0), loc)
        if count:
            cx.ob(props, "unchanged-count", st, eq(s.count(st.mem, st), s.count0()), loc)
        cx.ob(props, "unchanged-gc_ratio", st, eq(m.mget(st.mem, st, "gc_ratio"), S("gc_ratio", 8)), loc)

    def pure(s, st, loc):
        cx = s.cx
        s.unchanged(st, ("C14",), loc)
        for e in st.events():
            if e.kind in MODIFY or e.kind.startswith("other:nand"):
                cx.fact(("C14",), "query-modifies", False, e.loc, e.kind + " called", st)
        a, b = st.buf.get("PB"), s.eng.bufobjs["PB"]
        cx.fact(("C14",), "query-modifies-buffer", a is None or a == b, loc, "page buffer changed", st)


T_ = T


def common(mp):
    r, cx = mp.r, mp.cx
    for t in mp.traces.values():
        mp.trace_rules(t)
    for ev in mp.events:
        if ev.kind in ("jenq", "jcopy"):
            mp.write_event(ev)
        elif ev.kind == "jdeq":
            mp.dequeue_event(ev)
        elif ev.kind == "jread":
            cx.ob(("C08", "C11"), "missing-page-not-read", ev.st, bnot(noneq(ev.args[1])), ev.loc)
    for L in mp.recov:
        mp.recovery_rules(L)
    for L in mp.retry:
        mp.retry_rules(L)
    for kind, st, loc, stack, msg in r.eng.viol:
        if kind == "nullderef":
            cx.ob(("C13",), "null-pointer", st, FALSE, loc, extra=msg + " in " + stack[-1])
    cx.fact(("C13",), "null-pointer-scan", True, r.loc0)
    if cx.wants(("C16",)):
        seen = set()
        for obj, off, ln, wr, loc, st, fn_ in r.eng.acc:
            sz = r.eng.sizes.get(obj)
            if sz is None:
                continue
            key = (obj, off, ln, loc, id(st.facts))
            if key in seen:
                continue
            seen.add(key)
            z, lz = toZ(st.simp(off)), toZ(st.simp(ln))
            cx.ob(("C16",), "bounds-" + obj.split(":")[-1].split("/")[-1], st,
                  band(ge0(z), ge0(sub(toZ(sz), add(z, lz)))), loc)
    if cx.wants(("C18",)):
        import rr
        for L in r.eng.loops:
            if L.backs and L.stable and L not in mp.recov and L not in mp.retry:
                rr.one_loop(r, cx, L, [("bits of a sector number", C(32, 0)), ("collections per write", C(256, 0))])


def r_find(mp):
    cx = mp.cx
    for st, v in mp.r.exits:
        evs = st.events()
        loc = evs[-1].loc if evs else mp.r.loc0
        t, since = mp.walk(evs)
        nfc = mp.nf(st, t)
        rv = mp.exit_errors(st, v, [(nfc, "NOT_FOUND")])
        mp.pure(st, loc)
        if rv == 0:
            lp = st.mem.get(("?LOC", 0))
            lp = st.simp(lp) if lp is not None else None
            cx.ob(("C08",), "found-after-32-bits", st, mp.found(st, t), loc)
            if t is not None:
                cx.fact(("C08",), "lookup-of-requested-sector", t.T is S("target", 32), loc, "looked up " + show(t.T), st)
                g = FALSE
                if lp is not None:
                    g = bor(bnot(nonnull("?LOC")), eq(lp, t.P))
                cx.ob(("C08",), "reports-page-found", st, g, loc)
        elif rv == -1 and not [e for e in evs if e.ok is False]:
            cx.ob(("C08",), "not-found-only-if-absent", st, band(nfc, eq(mp.err(st), C(EC["NOT_FOUND"], 32))), loc)


def r_read(mp):
    cx, eng = mp.cx, mp.eng
    for st, v in mp.r.exits:
        evs = st.events()
        loc = evs[-1].loc if evs else mp.r.loc0
        t, since = mp.walk(evs)
        rv = mp.exit_errors(st, v)
        mp.pure(st, loc)
        rd = [e for e in evs if e.kind == "nread"]
        if t is not None:
            cx.fact(("C08", "C22"), "lookup-of-requested-sector", t.T is S("target", 32), loc, "looked up " + show(t.T), st)
        if rd:
            e = rd[-1]
            cx.ob(("C08", "C22"), "reads-page-found", e.st, band(mp.found(e.st, t), eq(e.args[1], t.P) if t else FALSE), e.loc)
            cx.ob(("C22",), "reads-whole-page", e.st, band(eq0(toZ(e.args[2])), eq0(sub(toZ(e.args[3]), p2(LPSz, 0)))), e.loc)
            d = e.args[4]
            cx.fact(("C22",), "reads-into-callers-buffer", d.op == "ptr" and d.a[0] == "DATA" and isc(d.a[1]) and cv(d.a[1]) == 0, e.loc,
                    "reads elsewhere", e.st)
            mp.no_failure(e, [x for x in evs if x is not e], ("C13", "C08"), "read-after-failed-lookup")
        elif rv == 0:
            cx.ob(("C08", "C22"), "unmapped-reads-as-ff", st, mp.nf(st, t), loc)
            a = st.fork()
            o = S("o", 64, 0, 1 << 16)
            a.assume(ge0(addk(sub(p2(LPSz, 0), toZ(o)), -1)))
            cx.ob(("C22",), "fills-whole-page", a, eq(eng.rdbyte(a, st.buf.get("DATA", eng.bufobjs["DATA"]), o), C(0xff, 8)), loc)


def r_write(mp):
    cx = mp.cx
    for st, v in mp.r.exits:
        evs = st.events()
        loc = evs[-1].loc if evs else mp.r.loc0
        t, since = mp.walk(evs)
        caps = [e for e in evs if e.kind == "mcap"]
        full = band(mp.nf(st, t), bnot(ult(mp.count0(), caps[-1].extra))) if caps else FALSE
        rv = mp.exit_errors(st, v, [(full, "MAP_FULL")])
        prim = [e for e in evs if e.kind in ("jenq", "jcopy") and mp.classify(e) == "primary"]
        ok = [e for e in prim if e.ok]
        if rv == 0:
            cx.fact(("C13", "C09", "C12"), "success-means-written", bool(ok), loc, "success without writing the page", st)
            if ok:
                cx.fact(("C09",), "written-once", len(ok) == 1, loc, "%d pages written" % len(ok), st)
                cx.ob(("C12",), "count-after-success", st, eq(mp.count(st.mem, st), mp.count(ok[-1].mem, ok[-1].st)), loc)
        elif rv == -1:
            cx.fact(("C13",), "failure-means-not-written", not ok, loc, "reports failure after writing the page", st)
            cx.ob(("C12",), "count-after-failure", st, eq(mp.count(st.mem, st), mp.count0()), loc)


def r_trim(mp):
    cx = mp.cx
    for st, v in mp.r.exits:
        evs = st.events()
        loc = evs[-1].loc if evs else mp.r.loc0
        t, since = mp.walk([e for e in evs if e.kind != "jclear"])
        rv = mp.exit_errors(st, v)
        ok = [e for e in evs if e.kind == "jcopy" and e.ok and mp.classify(e) == "trim"]
        cl = [e for e in evs if e.kind == "jclear"]
        c1 = mp.count(st.mem, st)
        if rv == 0:
            if ok:
                cx.ob(("C12", "C10"), "count-after-trim", st, eq(c1, addk(mp.count0(), -1)), loc)
            elif cl:
                cx.ob(("C12", "C10"), "count-after-last-trim", st, eq(c1, C(0, 32)), loc)
            else:
                cx.ob(("C12", "C10"), "count-after-null-trim", st, eq(c1, mp.count0()), loc)
                cx.ob(("C10",), "only-unmapped-is-ignored", st, mp.nf(st, t), loc)
                if t is not None:
                    cx.fact(("C10",), "trim-looks-up-sector", t.T is S("target", 32), loc, "looked up another sector", st)
        elif rv == -1:
            cx.fact(("C13", "C10"), "failure-means-not-trimmed", not ok and not cl, loc, "reports failure after trimming", st)
            cx.ob(("C12",), "count-after-failure", st, eq(c1, mp.count0()), loc)
    for ev in mp.events:
        if ev.kind != "jclear":
            continue
        st = ev.st
        evs = [e for e in st.events() if e is not ev]
        t, since = mp.walk(evs)
        mp.no_failure(ev, since, ("C10", "C13"), "cleared-after-failure")
        cx.ob(("C10",), "clear-of-mapped-sector", st, mp.found(st, t), ev.loc)
        if t is None:
            continue
        se = mp.searches(evs, t)
        done = False
        for L in se:
            if prove_lite(st, ge0(addk(toZ(L.it), -32))) is True:
                done = True
                for e, b in L.backs:
                    cx.ob(("C10",), "clear-only-if-alone", b, noneq(fn("seg:" + t.L.it.a[0], 32, addk(scale(Z64(L.it), -4), 124))), L.loc)
        if not done:
            cx.fact(("C10",), "clear-only-if-alone", False, ev.loc, "map emptied without finding every pointer empty", st)


def r_sync(mp):
    cx = mp.cx
    for st, v in mp.r.exits:
        evs = st.events()
        loc = evs[-1].loc if evs else mp.r.loc0
        rv = mp.exit_errors(st, v)
        if rv == 0:
            cx.ob(("C01",), "success-means-checkpointed", st, bnot(mp.flagbit(st.mem, st, F_DIRTY)), loc)
        cx.ob(("C12",), "count-unchanged", st, eq(mp.count(st.mem, st), mp.count0()), loc)
    for L in mp.retry:
        for e, b in L.backs:
            evs = body(L, b)
            if any(x.ok is False for x in evs):
                continue
            prog = [x for x in evs if x.kind == "jdeq" or (x.kind in ("jenq", "jcopy") and x.ok)]
            cx.fact(("C01", "C18"), "sync-makes-progress", bool(prog), L.loc, "a round of sync neither writes nor drops a page", b)


def r_gc(mp):
    cx = mp.cx
    for st, v in mp.r.exits:
        evs = st.events()
        loc = evs[-1].loc if evs else mp.r.loc0
        rv = mp.exit_errors(st, v)
        pk = [e for e in evs if e.kind == "jpeek"]
        dq = [e for e in evs if e.kind == "jdeq"]
        if rv == 0:
            if not dq:
                cx.ob(("C11",), "collection-frees-a-page", st, bor(eq(mp.count0(), C(0, 32)), noneq(pk[-1].extra) if pk else FALSE), loc)
        cx.ob(("C12",), "count-unchanged", st, eq(mp.count(st.mem, st), mp.count0()), loc)
        if rv == -1:
            cx.fact(("C11",), "failed-collection-keeps-tail", not dq, loc, "page dropped although collection failed", st)


def r_copy_sector(mp):
    cx = mp.cx
    for st, v in mp.r.exits:
        evs = st.events()
        loc = evs[-1].loc if evs else mp.r.loc0
        mp.exit_errors(st, v)
        cs = [e for e in evs if e.kind in ("mcopy", "mtrim")]
        v = st.simp(v) if v.conds else v
        if isc(v) and cv(v) == 0:
            cx.fact(("C22", "C13"), "success-means-done", len(cs) == 1 and cs[0].ok, loc, "success without copying or trimming", st)
        if not cs:
            continue
        e = cs[-1]
        cx.fact(("C13",), "result-passed-on", isc(v) and (cen(cv(v), 32) == 0) == bool(e.ok), loc, "result is %s" % show(v), st)
    for e in mp.events:
        if e.kind not in ("mcopy", "mtrim"):
            continue
        st = e.st
        evs = [x for x in st.events() if x is not e]
        t, since = mp.walk(evs)
        mp.no_failure(e, evs, ("C13", "C22", "C08"), "done-after-failed-lookup")
        if t is not None:
            cx.fact(("C22", "C08"), "lookup-of-source", t.T is S("source", 32), e.loc, "looked up " + show(t.T), st)
        if e.kind == "mcopy":
            cx.ob(("C22",), "copies-page-found", st, band(mp.found(st, t), eq(e.args[1], t.P) if t else FALSE, eq(e.args[2], S("target", 32))), e.loc)
        else:
            cx.ob(("C22",), "trims-only-if-source-unmapped", st, band(mp.nf(st, t), eq(e.args[1], S("target", 32))), e.loc)


def r_clear(mp):
    cx = mp.cx
    for st, v in mp.r.exits:
        evs = st.events()
        loc = evs[-1].loc if evs else mp.r.loc0
        cl = [e for e in evs if e.kind == "jclear"]
        cx.ob(("C12", "C22"), "count-after-clear", st, eq(mp.count(st.mem, st), C(0, 32)), loc)
        if not cl:
            cx.ob(("C22", "C01"), "clear-empties-journal", st, eq(mp.count0(), C(0, 32)), loc)
        cx.fact(("C22",), "clear-only-clears", not [e for e in evs if e.kind in MODIFY and e.kind != "jclear"], loc, "other changes", st)


def r_capacity(mp):
    cx = mp.cx
    cap = S("jcap", 32, 0, 1 << 30)
    ratio = addk(zext(S("gc_ratio", 8), 32), 1)
    for st, v in mp.r.exits:
        evs = st.events()
        loc = evs[-1].loc if evs else mp.r.loc0
        mp.pure(st, loc)
        v = st.simp(v) if v.conds else v
        capx = [e for e in evs if e.kind == "jcap"]
        cx.fact(("C21",), "capacity-from-journal", bool(capx), loc, "does not ask the journal", st)
        q = udiv(cap, ratio)
        mg = shl(C(RETRIES, 32), PPBz)
        tot = add(toZ(q), toZ(mg))
        fits = ge0(addk(sub(toZ(cap), tot), -1))
        cx.ob(("C21",), "map-capacity-formula", st, eq(v, ite(fits, sub(sub(cap, q), mg), C(0, 32))), loc)


def r_resume(mp):
    cx, eng = mp.cx, mp.eng
    for st, v in mp.r.exits:
        evs = st.events()
        loc = evs[-1].loc if evs else mp.r.loc0
        rv = mp.exit_errors(st, v)
        js = [e for e in evs if e.kind == "jresume"]
        cx.fact(("C19", "C12"), "resume-resumes-journal", len(js) == 1 and (rv == 0) == bool(js[0].ok), loc, "result does not match", st)
        c1 = mp.count(st.mem, st)
        if rv == 0:
            cx.ob(("C12", "C19", "C15"), "count-from-checkpoint", st, eq(c1, eng.rd32(st, st.buf["PB"] if "PB" in st.buf else eng.bufobjs["PB"], C(HDR, 64))), loc)
        elif rv == -1:
            cx.ob(("C12", "C19"), "count-after-failed-resume", st, eq(c1, C(0, 32)), loc)


def r_init(mp):
    cx, m = mp.cx, mp.m
    for st, v in mp.r.exits:
        evs = st.events()
        loc = evs[-1].loc if evs else mp.r.loc0
        ji = [e for e in evs if e.kind == "jinit"]
        ok = len(ji) == 1 and [a for a in ji[0].args[1:3]] == [ptr("N"), ptr("PB")]
        cx.fact(("C26",), "initialises-journal", ok, loc, "journal not initialised with the caller's chip and buffer", st)
        cx.ob(("C26", "C12"), "initial-count", st, eq(mp.count(st.mem, st), C(0, 32)), loc)
        ra = S("ratio", 8)
        cx.ob(("C26",), "initial-ratio", st, eq(m.mget(st.mem, st, "gc_ratio"), ite(eq(ra, C(0, 8)), C(1, 8), ra)), loc)


RULES = {
    "dhara_map_find": r_find, "dhara_map_read": r_read, "dhara_map_write": r_write, "dhara_map_copy_page": r_write,
    "dhara_map_trim": r_trim, "dhara_map_sync": r_sync, "dhara_map_gc": r_gc, "dhara_map_copy_sector": r_copy_sector,
    "dhara_map_clear": r_clear, "dhara_map_capacity": r_capacity, "dhara_map_resume": r_resume, "dhara_map_init": r_init,
}


def run(func, want, noerr=False):
    r = mm.explore_map(func, [(nonnull("?ERR"), not noerr)])
    cx = Ctx(want, r.eng, func, "[no error pointer]" if noerr else "")
    mp = Map(r, cx)
    mp.noerr = noerr
    RULES[func](mp)
    common(mp)
    return r, cx
