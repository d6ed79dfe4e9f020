"""Rules over the journal layer (struct dhara_journal and the NAND driver)."""
import gc
import ir
import terms
from ir import AnalysisBroken
from terms import *
from absint import *
from model import *
from oblig import *

NULLABLE.update({"?ERR", "?DATA", "?META"})
KSYM = S("k", 32, 0, 1 << 14)          # generic slot/word index
GEOM = ge0(sub(addk(p2(LPSz, 0), -20 + 132), scale(p2(PPCz, 0), 132)))  # 20+132*(2^ppc-1) <= page size
MODS = ("erase", "prog", "copy")
CUTS = ("is_bad", "erase", "prog", "copy", "LOOP")

ARGS = {
    "dhara_journal_next_recoverable": lambda: [ptr("J")],
    "dhara_journal_enqueue": lambda: [ptr("J"), ptr("?DATA"), ptr("?META"), ptr("?ERR")],
    "dhara_journal_copy": lambda: [ptr("J"), page("src"), ptr("?META"), ptr("?ERR")],
    "dhara_journal_read_meta": lambda: [ptr("J"), page("p"), ptr("BUF"), ptr("?ERR")],
    "dhara_journal_peek": lambda: [ptr("J")],
    "dhara_journal_dequeue": lambda: [ptr("J")],
    "dhara_journal_clear": lambda: [ptr("J")],
    "dhara_journal_capacity": lambda: [ptr("J")],
    "dhara_journal_size": lambda: [ptr("J")],
    "dhara_journal_resume": lambda: [ptr("J"), ptr("?ERR")],
    "dhara_journal_init": lambda: [ptr("J"), ptr("N"), ptr("PB")],
}
ANYMODE = ("dhara_journal_capacity", "dhara_journal_size", "dhara_journal_resume", "dhara_journal_init")


# -- specification terms -----------------------------------------------------
def NU(h):
    """successor user page"""
    a = addk(h, 1)
    b = ite(eq0(mod(addk(a, 1), PPCz)), addk(a, 1), a)
    return ite(ult(b, CHIP32), b, C(0, 32))


def blk(h):
    return div(h, PPBz)


def NBK(h):
    """start of the block after h's"""
    b = addk(blk(h), 1)
    return shl(ite(ult(b, NB), b, C(0, 32)), PPBz)


def aligned(p, e):
    return eq0(mod(p, e))


def same(a, b, e):
    """same 2^e-aligned group"""
    return eq(div(a, e), div(b, e))


def slot(p):
    return addk(scale(zext(mod(p, PPCz), 64), META), HDR + COOKIE)


def flag(m, mem, st, b):
    return fbit(getf(m, mem, st, "flags"), b)


def getf(m, mem, st, f):
    k = m.fo(f)
    v = mem.get(k)
    if v is None:
        v = m.objinit(k[0], k[1], m.nm.jw(f))
    if v is None:
        v = m.eng.initval(k[0], k[1], m.nm.jw(f))
    return st.simp(v) if v.conds else v


def errv(st, mem=None):
    v = (mem or st.mem).get(("?ERR", 0))
    if v is None:
        v = S("?ERR+0", 32)
    return st.simp(v) if v.conds else v


def err_is(st, *codes):
    """error pointer absent, or holding one of the codes"""
    e = errv(st)
    return bor(bnot(nonnull("?ERR")), *[eq(e, c if isinstance(c, T) else C(c, 32)) for c in codes])


# -- loop candidates ----------------------------------------------------------
def phishape(eng, st, k, e):
    """an upper search bound may become -1: represent it as a natural number less one"""
    if e.op == "ptr" or e.w != 32 or isc(e) or k[0] != "r":
        return None
    if not allatoms([e]) <= _geo or phirange(eng, st, e) is not None:
        return None
    lo, hi = terms.sbounds(e)
    if hi >= 1 << 20:
        return None
    return -1, 0, hi + 1


def bound_cands(st, ents, val):
    """search bounds stay within the range searched"""
    out = []

    def cand(src, f, e, v):
        if prove_lite(st, f(e)) is True:
            out.append((src, f(v), True))
    reg = [(k, e) for k, e in ents.items() if k[0] == "r" and e.op != "ptr" and e.w == 32]
    for k, e in reg:
        v = val[k]
        if v is e or LISTEP(v):
            continue
        cand(("ge", k), lambda x: ge0(sub(toZs(x), toZs(e))), e, v)
        for k2, e2 in reg:
            cand(("le", k, k2), lambda x: ge0(addk(sub(toZs(e2), toZs(x)), 0 if k2 == k else 1)), e, v)
    return out


def LISTEP(v):
    return any(a.a[0].startswith("it#") for a in allatoms([v]) if a.op == "s")


def loopcands(m, search=False):
    def h(eng, st, S0, ents, val):
        out = bound_cands(st, ents, val) if search else []
        for k, e in ents.items():
            v = val[k]
            if v.op != "s" or v.w != 32:
                continue
            if k[0] == "m" and k[1] == m.fo("head"):
                for nmx, f in (("lt", lt_chip), ("up", upage), ("al", lambda x: aligned(toZ(x), PPBz))):
                    if prove_lite(st, f(e)) is True:
                        out.append((("head" + nmx, k), f(v), True))
                ts = getf(m, S0.mem, S0, "tail_sync")
                f = lambda x: bnot(same(x, ts, PPBz))
                if prove_lite(st, f(e)) is True:
                    out.append((("headts", k), f(v), True))
                if search:
                    rt = getf(m, S0.mem, S0, "root")
                    f2 = lambda x: same(x, rt, PPBz)
                    if prove_lite(st, f2(e)) is True:
                        out.append((("headrt", k), f2(v), True))
            elif not tied(st, e):
                continue
            elif prove_lite(st, lt_nb(e)) is True:
                out.append((("nb", k), lt_nb(v), True))
            elif prove_lite(st, lt_chip(e)) is True:
                out.append((("lt", k), lt_chip(v), True))
        return out
    return h


def lt_nb(b):
    return ge0(addk(sub(NBz, toZ(b)), -1))


def tied(st, e):
    """is some free value of e related to the chip's size by a fact?"""
    rel = None
    for x in leaves(e):
        at = atoms(x) - _geo
        if not at:
            continue
        if rel is None:
            rel = set()
            for f in st.facts:
                a = allatoms([f])
                if NB in a:
                    rel |= a
        if at.isdisjoint(rel):
            return False
    return True


def leaves(e):
    if e.op == "ite":
        return leaves(e.a[1]) | leaves(e.a[2])
    return {e}


_geo = {PPC, PPB, LPS, NB}


def phirange(eng, st, e):
    if e.op == "ptr" or e.w != 32 or isc(e) or not tied(st, e):
        return None
    if prove_lite(st, lt_nb(e)) is True:
        return (0, (1 << 18) - 1)
    return None


# -- exploring one entry point -------------------------------------------------
class Run:
    pass


_mods = {}


def lib():
    if "lib" not in _mods:
        _mods["lib"] = ir.load_lib(ir.lib_sources())
    return _mods["lib"]


def explore(func, rec, assume=()):
    """analyse journal entry point `func`; rec: in recovery at entry?"""
    m = Model(lib())
    st = m.journal_state(recovery=rec, anything=func in ("dhara_journal_resume", "dhara_journal_init"))
    st.assume(GEOM)
    st.assume(bor(bnot(S("has_root", 1)), lt_chip(page("root"))))
    st.assume(bor(bnot(S("has_root", 1)), upage(page("root"))))
    if rec:
        st.assume(upage(page("recover_root")))
        st.assume(upage(page("recover_next")))
        st.assume(S("has_root", 1))
    for p in ("src", "p"):
        st.assume(lt_chip(page(p)))
        st.assume(upage(page(p)))
    for c, v in assume:
        st.assume(c, v)
    search = func == "dhara_journal_resume"
    e = m.engine(opts={"loopcands": loopcands(m, search), "phirange": phirange, "prove": prove_lite, "access": True})
    if search:
        e.opts["phishape"] = phishape
        e.opts["itmax"] = 1 << 18
    for b, sz in (("?DATA", p2(LPSz, 64)), ("?META", C(META, 64)), ("BUF", C(META, 64))):
        e.bufobjs[b] = Content(("space", b.strip("?"), ()))
        e.sizes[b] = sz
    if func not in m.m.funcs:
        raise AnalysisBroken("public function %s not found" % func)
    r = Run()
    r.func, r.rec, r.m, r.eng, r.st0 = func, rec, m, e, st
    r.exits = e.call_fn(func, ARGS[func](), st.fork())
    r.loc0 = m.m.loc(m.m.funcs[func].dbg) if getattr(m.m.funcs[func], "dbg", None) else ("journal.c", 0)
    r.backs = [(b, rec2) for rec2 in e.loops for _, b in rec2.backs]
    r.finals = [(s2, v, "exit") for s2, v in r.exits] + [(b, l, "back") for b, l in r.backs]
    return r


class Sg:
    """segment between two cut points of one abstract path"""
    __slots__ = ("a", "b", "mem0", "mem1", "st", "T", "v", "kind", "pre", "evs", "between", "buf1")


def segments(r):
    seen = set()
    out = []
    for T_, v, kind in r.finals:
        evs = T_.events()
        a, mem0, between = None, r.st0.mem, []
        pre = []
        for ev in evs:
            if ev.kind in CUTS:
                if ev.kind == "LOOP":
                    mem1, buf1, st = ev.extra.entry.mem, ev.extra.entry.buf, ev.extra.entry
                else:
                    mem1, buf1, st = ev.mem, ev.buf, ev.st
                key = (id(a), id(ev), tuple(id(x) for x in between))
                if key not in seen:
                    seen.add(key)
                    g = Sg()
                    g.a, g.b, g.mem0, g.mem1, g.st, g.T, g.v, g.kind = a, ev, mem0, mem1, st, None, None, "ev"
                    g.pre, g.between, g.buf1 = list(pre), between, buf1
                    out.append(g)
                a, mem0, between = ev, ev.mem, []
                pre.append(ev)
            else:
                between = between + [ev]
        g = Sg()
        g.a, g.b, g.mem0, g.mem1, g.st, g.T, g.v, g.kind = a, None, mem0, T_.mem, T_, T_, v, kind
        g.pre, g.between, g.buf1 = pre, between, T_.buf
        out.append(g)
    return out


def is_exit(g, val):
    """segment ends in a return of value val (0 / -1)"""
    if g.kind != "exit":
        return FALSE
    v = g.st.simp(g.v) if g.v.conds else g.v
    return eq(v, C(val, 32))


def isck(m, ev):
    """prog event: True if it targets the slot after the head, False if the head"""
    h = getf(m, ev.mem, ev.st, "head")
    d = ev.args[2] if ev.kind == "copy" else ev.args[1]
    if ev.st.decide(eq(d, h)) is True:
        return False
    if ev.st.decide(eq(d, addk(h, 1))) is True:
        return True
    return None


def evloc(g):
    e = g.b if g.b is not None and g.b.kind != "LOOP" else g.a
    return e.loc if e is not None else ("", 0)


def aloc(g):
    return g.a.loc if g.a is not None else ("", 0)


def badfail(a):
    """condition: event a is a failure caused by a bad block"""
    if a is None:
        return FALSE
    if a.kind == "is_bad":
        return TRUE if a.ok else FALSE
    if a.kind in MODS and a.ok is False:
        return eq(a.extra, C(ERR["BAD_BLOCK"], 32))
    return FALSE


ERR = {}


def rules_write(r, cx):
    """rules over dhara_journal_enqueue / dhara_journal_copy"""
    m = r.m
    E = m.nm.e
    ERR.update(E)
    segs = segments(r)
    isenq = r.func.endswith("enqueue")
    G = lambda mem, st, f: getf(m, mem, st, f)
    for g in segs:
        st = g.st
        a = g.a
        h0, h1 = G(g.mem0, st, "head"), G(g.mem1, st, "head")
        ak = a.kind if a is not None else "start"
        dataless = isenq and st.decide(nonnull("?DATA")) is False
        nomove = eq(h1, h0)
        ex0, exm = is_exit(g, 0), is_exit(g, -1)
        full = band(exm, err_is(st, E["JOURNAL_FULL"]))
        bad = badfail(a)
        loc = evloc(g) if a is None or ak == "LOOP" else a.loc
        # ---- where the head may go -------------------------------------------
        if ak in ("start", "LOOP") or (ak == "is_bad" and not a.ok) or (ak == "erase" and a.ok):
            goal = nomove
            if dataless and g.kind == "exit":
                goal = ite(ex0, eq(h1, NU(h0)), nomove)
            elif g.kind == "exit":
                goal = band(nomove, bnot(ex0))     # success needs an accepted page
            cx.ob(("C20", "C04", "C25"), "head-still", st, goal, loc)
        elif ak == "is_bad":
            cx.ob(("C20", "C05"), "head-skip-bad", st, bor(eq(h1, NBK(h0)), band(full, nomove)), loc)
        elif a.ok is False:
            cx.ob(("C20", "C04", "C05"), "head-after-failure", st,
                  ite(bad, bor(eq(h1, NBK(h0)), band(full, nomove)), band(nomove, exm)), loc)
        else:   # prog/copy accepted
            ck = isck(m, a)
            nxt = g.b is not None and g.b.kind == "prog" and isck(m, g.b) is True
            if ck is not True and nxt:
                goal = nomove
            else:
                goal = eq(h1, NU(h0))
            cx.ob(("C20", "C04"), "head-after-program", st, goal, loc)
        # ---- block entry keeps off the protected tail --------------------------
        ts0 = G(g.mem0, st, "tail_sync")
        cx.ob("C03", "enter-block", st, bor(same(h1, h0, PPBz), bnot(same(h1, ts0, PPBz))), loc)
        # ---- epoch and bad-block statistics ------------------------------------
        wrap = band(eq0(h1), bnot(eq0(h0)))
        bc0, bl0, ep0 = G(g.mem0, st, "bb_current"), G(g.mem0, st, "bb_last"), G(g.mem0, st, "epoch")
        bc1, bl1, ep1 = G(g.mem1, st, "bb_current"), G(g.mem1, st, "bb_last"), G(g.mem1, st, "epoch")
        cnt = add(bc0, ite(bad, C(1, 32), C(0, 32)))
        cx.ob("C20", "epoch-on-wrap", st, eq(ep1, ite(wrap, addk(ep0, 1), ep0)), loc)
        cx.ob(("C20", "C05"), "bad-block-stats", st,
              band(eq(bl1, ite(wrap, cnt, bl0)), eq(bc1, ite(wrap, C(0, 32), cnt))), loc)
        # ---- protected tail and dirty flag --------------------------------------
        ckok = ak == "prog" and a.ok and isck(m, a) is not False
        ts1 = G(g.mem1, st, "tail_sync")
        rec1 = flag(m, g.mem1, st, F_RECOVERY)
        tl1 = G(g.mem1, st, "tail")
        if ckok:
            cx.ob(("C03", "C06"), "tail-sync-update", st,
                  ite(rec1, eq(ts1, ts0), eq(ts1, tl1)), loc)
        else:
            cx.ob(("C03", "C06"), "tail-sync-still", st, eq(ts1, ts0), loc)
        empty = band(eq(G(g.mem0, st, "root"), C(NONE, 32)), bnot(flag(m, g.mem0, st, F_RECOVERY)))
        # (an empty journal restarts at the new head when its block fails)
        restarted = band(bad, empty, eq(tl1, h1)) if ak in MODS and a.ok is False else FALSE
        cx.ob(("C24", "C03"), "tail-still", st, bor(eq(tl1, G(g.mem0, st, "tail")), restarted), loc)
        d0, d1 = flag(m, g.mem0, st, F_DIRTY), flag(m, g.mem1, st, F_DIRTY)
        if ckok:
            cx.ob("C01", "clean-after-checkpoint", st, bnot(d1), loc)
        else:
            cx.ob("C01", "dirty-kept", st, implies(d0, d1), loc)
            if g.kind == "exit":
                cx.ob("C01", "dirty-on-success", st, implies(ex0, d1), loc)
        # ---- the sector count stored in the cookie is not the journal's ----------
        c0_ = (a.buf if a is not None else r.st0.buf).get("PB", r.eng.bufobjs["PB"])
        c1_ = pbc(r, g.buf1)
        if c0_ == c1_:
            cx.fact(("C02", "C15", "C12"), "cookie-kept", True, loc)
        else:
            cx.ob(("C02", "C15", "C12"), "cookie-kept", st, eq(r.eng.rd32(st, c1_, C(HDR, 64)), r.eng.rd32(st, c0_, C(HDR, 64))), loc)
        # ---- failures lead to retirement -----------------------------------------
        if ak in MODS and a.ok is False:
            B = blk(h0)
            marked = bor(*[eq(e.args[1], B) for e in g.between if e.kind == "mark_bad"]) \
                if any(e.kind == "mark_bad" for e in g.between) else FALSE
            rm = G(g.mem1, st, "recover_meta")
            held = band(flag(m, g.mem1, st, F_BADMETA), bnot(eq(rm, C(NONE, 32))), eq(blk(rm), B))
            rn = flag(m, g.mem1, st, F_RECOVERY)
            # a later segment of the same path may begin the recovery (after a dump)
            willrec = bnot(aligned(h0, PPBz)) if not r.rec and g.kind == "ev" and g.b.kind != "LOOP" else FALSE
            if not r.rec and g.b is not None and g.b.kind == "LOOP":
                willrec = band(bnot(aligned(h0, PPBz)), bnot(empty))     # retries of the dump
            rr = G(g.mem1, st, "recover_root")
            beg = band(rn, bnot(flag(m, g.mem0, st, F_RECOVERY)))
            cx.ob("C05", "failed-block-handled", st,
                  bor(bnot(bad), marked, held, willrec, beg, restarted, exm if st.decide(err_is(st, E["RECOVER"])) is not True else FALSE), loc)
        # ---- mark_bad only for failed blocks ------------------------------------
        for e in g.between:
            if e.kind != "mark_bad":
                continue
            s2 = e.st
            B = e.args[1]
            opts_ = [band(bad, eq(B, blk(h0)))] if ak in MODS else []
            if ak == "prog" and a.ok and isck(m, a) is not False:
                rd = band(flag(m, g.mem0, s2, F_RECOVERY), flag(m, g.mem0, s2, F_ENUM))
                rroot, rmeta = G(g.mem0, s2, "recover_root"), G(g.mem0, s2, "recover_meta")
                opts_.append(band(rd, eq(B, blk(rroot))))
                opts_.append(band(rd, flag(m, g.mem0, s2, F_BADMETA), eq(B, blk(rmeta))))
            cx.ob(("C05", "C06"), "mark-bad-justified", s2, bor(*opts_) if opts_ else FALSE, e.loc)
            if ak in MODS and a.ok is False:
                # the block on which the failed-over metadata lives must not be retired yet
                rmeta = G(g.mem0, s2, "recover_meta")
                cx.ob("C06", "dump-block-kept", s2, bor(eq(rmeta, C(NONE, 32)), bnot(eq(blk(rmeta), B)),
                                                       bnot(flag(m, g.mem0, s2, F_RECOVERY))), e.loc)
        # ---- completion of recovery ----------------------------------------------
        if ckok and r.rec and g.b is None:
            done = band(flag(m, g.mem0, st, F_RECOVERY), flag(m, g.mem0, st, F_ENUM))
            mk_ = [e.args[1] for e in g.between if e.kind == "mark_bad"]
            rroot, rmeta = G(g.mem0, st, "recover_root"), G(g.mem0, st, "recover_meta")
            hasm = lambda B: bor(*[eq(x, B) for x in mk_]) if mk_ else FALSE
            cx.ob("C06", "finish-marks", st, implies(done, band(hasm(blk(rroot)),
                  implies(flag(m, g.mem0, st, F_BADMETA), hasm(blk(rmeta))))), loc)
            clr = band(*[bnot(flag(m, g.mem1, st, b)) for b in (F_RECOVERY, F_BADMETA, F_ENUM)])
            clr = band(clr, *[eq(G(g.mem1, st, f), C(NONE, 32)) for f in ("recover_next", "recover_root", "recover_meta")])
            keep = band(*[eq(flag(m, g.mem1, st, b), flag(m, g.mem0, st, b)) for b in (F_RECOVERY, F_BADMETA, F_ENUM)])
            keep = band(keep, *[eq(G(g.mem1, st, f), G(g.mem0, st, f)) for f in ("recover_next", "recover_root", "recover_meta")])
            cx.ob(("C06", "C07"), "finish-clears", st, ite(done, clr, keep), loc)
        # ---- a further failure restarts the recovery -----------------------------
        if r.rec and ak in MODS and a.ok is False and g.kind == "exit":
            rroot = G(g.mem0, st, "recover_root")
            rst = band(flag(m, g.mem1, st, F_RECOVERY), bnot(flag(m, g.mem1, st, F_ENUM)),
                       eq(G(g.mem1, st, "recover_next"), align_down(rroot, PPBz)),
                       eq(G(g.mem1, st, "recover_root"), rroot),
                       eq(G(g.mem1, st, "recover_meta"), G(g.mem0, st, "recover_meta")),
                       eq(G(g.mem1, st, "root"), rroot), exm, err_is(st, E["RECOVER"]))
            cx.ob(("C06", "C07"), "restart", st, bor(bnot(bad), full, rst), loc)
    # ---- per event ------------------------------------------------------------
    seen = set()
    for T_, v, kind in r.finals:
        prev = None
        for ev in T_.events():
            if ev.kind in CUTS:
                if id(ev) not in seen and ev.kind in MODS:
                    seen.add(id(ev))
                    per_event(r, cx, ev, prev)
                prev = ev
    # ---- whole calls -------------------------------------------------------------
    for T_, v in r.exits:
        whole_write(r, cx, T_, v)
    common_rules(r, cx)


def pbc(r, buf):
    return buf.get("PB", r.eng.bufobjs["PB"])


def per_event(r, cx, ev, prev):
    m, st = r.m, ev.st
    G = lambda f: getf(m, ev.mem, st, f)
    h = G("head")
    cx.ob("C01", "dirty-before-modify", st, flag(m, ev.mem, st, F_DIRTY), ev.loc)
    if ev.kind == "erase":
        b = ev.args[1]
        cx.ob(("C04",), "erase-at-head", st, band(aligned(h, PPBz), eq(b, blk(h))), ev.loc)
        ok = prev is not None and prev.kind == "is_bad" and prev.ok is False
        if ok:
            cx.ob(("C05",), "erase-checked", st, eq(prev.args[1], b), ev.loc)
        else:
            cx.ob(("C05",), "erase-checked", st, FALSE, ev.loc)
        return
    dst = ev.args[1] if ev.kind == "prog" else ev.args[2]
    # recovering variable order: prog(n,p,data,err) copy(n,src,dst,err)
    up = band(eq(dst, h), upage(h), lt_chip(h))
    isbuf = ev.kind == "prog" and ev.args[2].op == "ptr" and ev.args[2].a[0] == "PB" and \
        isc(ev.args[2].a[1]) and cv(ev.args[2].a[1]) == 0
    cp = band(eq(dst, addk(h, 1)), aligned(addk(h, 2), PPCz))
    goal = bor(up, cp) if isbuf else up
    cx.ob(("C04",), "program-at-head", st, goal, ev.loc)
    cx.ob(("C16",), "page-in-chip", st, lt_chip(dst), ev.loc)
    # a block's first page is programmed only right after its erase
    okp = prev is not None and prev.kind == "erase" and prev.ok is True
    if okp:
        cx.ob(("C04", "C05"), "erased-first", st, bor(bnot(aligned(h, PPBz)), eq(prev.args[1], blk(h))), ev.loc)
    else:
        pok = prev is not None and prev.kind in ("prog", "copy") and prev.ok is True
        cx.ob(("C04", "C05"), "erased-first", st,
              bor(cp, bnot(aligned(h, PPBz))) if pok and ev.kind == "prog" else bnot(aligned(h, PPBz)), ev.loc)
    if ev.kind == "copy":
        if ev.args[1].op == "s":
            cx.ob(("C25", "C09"), "copy-source", st, eq(ev.args[1], page("src")), ev.loc)
        else:
            cx.ob(("C25", "C09"), "copy-source", st, eq(ev.args[1], page("src")), ev.loc)
    elif not isbuf:
        d = ev.args[2]
        ok = d.op == "ptr" and d.a[0] == "?DATA" and isc(d.a[1]) and cv(d.a[1]) == 0
        cx.fact(("C25", "C09"), "payload-source", ok, ev.loc, "programs %r instead of the caller's data" % (d,), st)
    if isbuf and st.decide(cp) is not False:
        s2 = st.fork()
        if s2.assume(cp, True):
            ckpt_content(r, cx, ev, s2)


def ckpt_content(r, cx, ev, st):
    """contents of the checkpoint page handed to the chip"""
    m, eng = r.m, r.eng
    c = pbc(r, ev.buf)
    G = lambda f: getf(m, ev.mem, st, f)
    for k, ch in enumerate(b"Dha"):
        cx.ob(("C02", "C15"), "ckpt-magic", st, eq(eng.rdbyte(st, c, C(k, 64)), C(ch, 8)), ev.loc)
    cx.ob(("C02", "C15", "C20"), "ckpt-epoch", st, eq(eng.rdbyte(st, c, C(3, 64)), G("epoch")), ev.loc)
    for off, f in ((4, "tail"), (8, "bb_current"), (12, "bb_last")):
        cx.ob(("C02", "C15"), "ckpt-" + f, st, eq(eng.rd32(st, c, C(off, 64)), G(f)), ev.loc)
    h = G("head")
    slot_content(r, cx, ("C02", "C25", "C09", "C15"), "ckpt-slot", st, c, h, ev.loc)


def slot_content(r, cx, props, rule, st, c, h, loc):
    """metadata slot of page h in content c == caller's metadata (or 0xff)"""
    if not cx.wants(props):
        return
    s2 = st.fork()
    if not s2.assume(ge0(addk(neg(toZ(KSYM)), 32)), True):
        return
    off = add(slot(h), scale(zext(KSYM, 64), 4))
    v = r.eng.rd32(s2, c, off)
    want = ite(nonnull("?META"), word("META", scale(zext(KSYM, 64), 4)), C(0xffffffff, 32))
    cx.ob(props, rule, s2, eq(v, want), loc)


def frame_content(r, cx, props, rule, st, c, c0, h, loc):
    """everything in the buffer outside header and slot of h is unchanged"""
    if not cx.wants(props):
        return
    o = addk(scale(zext(KSYM, 64), 4), HDR)
    lo = slot(h)
    for cond in (ge0(sub(toZ(lo), addk(toZ(o), 4))), ge0(sub(toZ(o), addk(toZ(lo), META)))):
        s2 = st.fork()
        if s2.assume(cond, True):
            cx.ob(props, rule, s2, eq(r.eng.rd32(s2, c, o), r.eng.rd32(s2, c0, o)), loc)


def cleared(r, cx, props, rule, st, c, loc):
    """user metadata area of the buffer is all ones"""
    if not cx.wants(props):
        return
    o = addk(scale(zext(KSYM, 64), 4), HDR + COOKIE)
    s2 = st.fork()
    if s2.assume(ge0(sub(p2(LPSz, 0), addk(toZ(o), 4))), True):
        cx.ob(props, rule, s2, eq(r.eng.rd32(s2, c, o), C(0xffffffff, 32)), loc)


def whole_write(r, cx, T_, v):
    m, E, eng = r.m, r.m.nm.e, r.eng
    G = lambda mem, f: getf(m, mem, T_, f)
    evs = [e for e in T_.events()]
    cuts = [e for e in evs if e.kind in CUTS]
    v = T_.simp(v) if v.conds else v
    rv = cen(cv(v), 32) if isc(v) else None
    fin = T_.mem
    loc = next((e.loc for e in reversed(evs) if e.kind != "LOOP"), r.loc0)
    cx.fact(("C13",), "returns-0-or-minus-1", rv in (0, -1), loc, "returns %r" % (v,), T_)
    # index of the last failure
    lastfail = max([i for i, e in enumerate(cuts) if e.kind in MODS and e.ok is False], default=-1)
    root0 = m.init[m.fo("root")]
    if rv == 0:
        tail = cuts[lastfail + 1:]
        user = [e for e in tail if e.kind in ("prog", "copy") and e.ok and isck(m, e) is False
                and not (e.kind == "prog" and e.args[2].op == "ptr" and e.args[2].a[0] == "PB")]
        ck = [e for e in tail if e.kind == "prog" and e.ok and isck(m, e) is True]
        dataless = r.func.endswith("enqueue") and T_.decide(nonnull("?DATA")) is False
        if dataless:
            last = cuts[-1] if not ck else ck[-1]
            hp = getf(m, (last.mem if cuts else r.st0.mem), T_, "head")
        else:
            cx.fact(("C25",), "page-accepted", len(user) == 1, loc,
                    "success without exactly one accepted user page after the last failure (%d)" % len(user), T_)
            if len(user) != 1:
                return
            hp = T_.simp(user[0].args[1] if user[0].kind == "prog" else user[0].args[2])
        cx.ob(("C25", "C04"), "root-is-new-page", T_, eq(G(fin, "root"), hp), loc)
        c = pbc(r, T_.buf)
        slot_content(r, cx, ("C25", "C09", "C23"), "slot-on-success", T_, c, hp, loc)
        c0 = pbc(r, r.st0.buf)
        if not any(e.kind == "LOOP" and "PB" in e.buf and e.buf["PB"].base[0] == "opaque" for e in evs):
            # (a retry after a failed checkpoint restarts the group, see group-restart)
            if not any(e.kind == "prog" and e.args[2].op == "ptr" and e.args[2].a[0] == "PB" and e.ok is False for e in evs):
                frame_content(r, cx, ("C25", "C02", "C09"), "other-slots-kept", T_, c, c0, hp, loc)
        # completing a group writes its checkpoint
        cx.ob(("C02", "C01", "C04", "C25"), "checkpoint-when-full", T_,
              bnot(aligned(addk(hp, 2), PPCz)) if not ck else aligned(addk(hp, 2), PPCz), loc)
    else:
        root1 = G(fin, "root")
        ok = [eq(root1, root0)]
        if r.rec:
            ok.append(eq(root1, page("recover_root")))
        cx.ob(("C25",), "root-on-failure", T_, bor(*ok), loc)
    begin_recovery(r, cx, T_, cuts, rv, loc)
    # error code
    if rv == -1:
        srcs = [e.extra for e in cuts if e.kind in MODS and e.ok is False]
        codes = [E["JOURNAL_FULL"], E["TOO_BAD"], E["RECOVER"]] + srcs
        cx.ob(("C13",), "error-set", T_, err_is(T_, *codes), loc)
        rec1 = flag(m, fin, T_, F_RECOVERY)
        cx.ob(("C13", "C07"), "recover-means-recovery", T_,
              bor(bnot(nonnull("?ERR")), bnot(eq(errv(T_), C(E["RECOVER"], 32))), rec1), loc)
        # a failure that is no bad block is reported as itself
        if cuts and cuts[-1].kind in MODS and cuts[-1].ok is False:
            e = cuts[-1].extra
            cx.ob(("C13",), "cause-reported", T_, implies(bnot(eq(e, C(E["BAD_BLOCK"], 32))), err_is(T_, e)), loc)
            cx.ob(("C13", "C06", "C07"), "bad-block-reported", T_,
                  implies(eq(e, C(E["BAD_BLOCK"], 32)), err_is(T_, E["RECOVER"], E["JOURNAL_FULL"], E["TOO_BAD"])), loc)
    # invariants
    for f in ("head", "tail", "tail_sync"):
        cx.ob(("C20", "C24", "C16"), "in-chip-" + f, T_, lt_chip(G(fin, f)), loc)
    cx.ob(("C04", "C20"), "head-user-page", T_, upage(G(fin, "head")), loc)
    # the full error leaves the chip alone in that attempt
    if rv == -1 and cuts and T_.decide(bnot(eq(errv(T_), C(E["JOURNAL_FULL"], 32)))) is not True:
        pass


def begin_recovery(r, cx, T_, cuts, rv, loc):
    if r.rec:
        return
    m, E, eng = r.m, r.m.nm.e, r.eng
    G = lambda mem, f: getf(m, mem, T_, f)
    rec1 = flag(m, T_.mem, T_, F_RECOVERY)
    d = T_.decide(rec1)
    f = None
    for e in cuts:
        if e.kind in ("prog", "copy", "erase") and e.ok is False:
            isd = e.kind == "prog" and e.args[2].op == "ptr" and e.args[2].a[0] == "PB" and isck(m, e) is False
            if not isd and e.kind != "erase":
                f = e
    if f is not None:
        hf, rf = getf(m, f.mem, T_, "head"), getf(m, f.mem, T_, "root")
        need = band(badfail(f), bnot(aligned(hf, PPBz)), bnot(eq(rf, C(NONE, 32))))
        other = band(C(1 if rv == -1 else 0, 1), bnot(err_is(T_, E["RECOVER"])))
        cx.ob(("C05", "C06", "C07"), "recovery-begun", T_, bor(bnot(need), rec1, other, bnot(nonnull("?ERR")) if rv == -1 else FALSE), loc)
    if d is False:
        cx.ob(("C06", "C05"), "no-stale-recovery", T_,
              band(*[eq(G(T_.mem, f), C(NONE, 32)) for f in ("recover_meta",)]), loc) if rv == 0 else None
        return
    # failing event that began it: the last failed user program/copy/checkpoint,
    # ignoring the failures of the dump itself (which target PB at the head)
    if f is None and d is None:
        return
    cx.fact(("C06",), "recovery-has-cause", f is not None, loc, "recovery begun without a failed program", T_)
    if f is None:
        return
    h = getf(m, f.mem, T_, "head")
    root = getf(m, f.mem, T_, "root")
    cx.ob(("C06", "C07"), "recovery-range", T_,
          implies(rec1, band(eq(G(T_.mem, "recover_root"), root), eq(G(T_.mem, "recover_next"), align_down(root, PPBz)),
               eq(G(T_.mem, "root"), root))), loc)
    cx.ob(("C06", "C13"), "recovery-reported", T_, implies(rec1, band(C(1 if rv == -1 else 0, 1), err_is(T_, E["RECOVER"]))), loc)
    cx.ob(("C06",), "recovery-flags", T_, implies(rec1, band(bnot(flag(m, T_.mem, T_, F_ENUM)), bnot(flag(m, T_.mem, T_, F_BADMETA)))), loc)
    i = cuts.index(f)
    dumps = [e for e in cuts[i + 1:] if e.kind == "prog" and e.ok and e.args[2].op == "ptr" and e.args[2].a[0] == "PB"]
    rm = G(T_.mem, "recover_meta")
    if not dumps:
        cx.ob(("C06",), "metadata-dumped", T_, implies(rec1, band(aligned(h, PPCz), eq(rm, C(NONE, 32)))), loc)
        return
    dmp = dumps[-1]
    cx.ob(("C06", "C23"), "dump-located", T_, eq(rm, T_.simp(dmp.args[1])), dmp.loc)
    cx.fact(("C06",), "dump-whole-page", isc(dmp.args[2].a[1]) and cv(dmp.args[2].a[1]) == 0, dmp.loc,
            "dumps from offset %r" % (dmp.args[2].a[1],), T_)
    cd, cf = pbc(r, dmp.buf), pbc(r, f.buf)
    if cd == cf:
        cx.fact(("C06", "C23"), "dump-content", True, dmp.loc)
    else:
        o = addk(scale(zext(KSYM, 64), 4), HDR + COOKIE)
        cx.ob(("C06", "C23"), "dump-content", T_, eq(eng.rd32(T_, cd, o), eng.rd32(T_, cf, o)), dmp.loc)
    cleared(r, cx, ("C06", "C23", "C11"), "buffer-cleared-after-dump", T_, pbc(r, T_.buf), dmp.loc)


# ---------------------------------------------------------------------------
def common_rules(r, cx):
    """rules that every journal entry point obeys"""
    m, eng = r.m, r.eng
    for kind, st, loc, stack, msg in eng.viol:
        if kind == "nullderef":
            cx.ob(("C13",), "null-pointer", st, FALSE, loc, extra=msg + " in " + stack[-1])
    cx.fact(("C13",), "null-pointer-scan", True, r.loc0)
    if cx.wants(("C16",)):
        seen = set()
        for obj, off, ln, wr, loc, st, fn_ in eng.acc:
            sz = eng.sizes.get(obj)
            if sz is None:
                continue
            key = (obj, off, ln, loc, id(st.facts))
            if key in seen:
                continue
            seen.add(key)
            z = toZ(st.simp(off))
            lz = toZ(st.simp(ln))
            cx.ob(("C16",), "bounds-" + obj.split(":")[-1].split("/")[-1], st,
                  band(ge0(zs(off)), ge0(sub(toZ(sz), add(z, lz)))), loc)
        rd = set()
        for T_, v, kind in r.finals:
            for ev in T_.events():
                if ev.kind == "read" and id(ev) not in rd:
                    rd.add(id(ev))
                    n, p, off, ln = ev.args[:4]
                    cx.ob(("C16",), "read-within-page", ev.st, ge0(sub(p2(LPSz, 0), add(toZ(off), toZ(ln)))), ev.loc)
                    cx.ob(("C16",), "read-in-chip", ev.st, lt_chip(p), ev.loc)


def zs(off):
    return toZ(off)


LOC0 = ("journal.c", 0)


def state_kept(r, cx, props, rule, T_, fields, loc, extra_ok=()):
    m = r.m
    for f in fields:
        v1, v0 = getf(m, T_.mem, T_, f), getf(m, r.st0.mem, T_, f)
        if f == "nand" or f == "page_buf":
            cx.fact(props, rule + "-" + f, v1 is v0, loc, "%s changed" % f, T_)
        else:
            cx.ob(props, rule + "-" + f, T_, eq(v1, v0), loc)


def no_modify(r, cx, props, T_, allow=()):
    for ev in T_.events():
        if ev.kind in MODS + ("mark_bad",) and ev.kind not in allow:
            cx.ob(props, "no-flash-modification", ev.st, FALSE, ev.loc, extra=ev.kind)
    cx.fact(props, "no-flash-modification", True, r.loc0)


def buf_kept(r, cx, props, rule, T_, loc):
    c1, c0 = pbc(r, T_.buf), pbc(r, r.st0.buf)
    if c1 == c0:
        cx.fact(props, rule, True, loc)
        return
    o = scale(zext(KSYM, 64), 4)
    cx.ob(props, rule, T_, eq(r.eng.rd32(T_, c1, o), r.eng.rd32(T_, c0, o)), loc)


def rules_query(r, cx):
    """capacity, size, read_meta: no effects; formulas"""
    m, E, eng = r.m, r.m.nm.e, r.eng
    for T_, v in r.exits:
        evs = T_.events()
        loc = evs[-1].loc if evs else r.loc0
        no_modify(r, cx, ("C14",), T_)
        state_kept(r, cx, ("C14",), "pure", T_, JF, loc)
        buf_kept(r, cx, ("C14",), "pure-page-buffer", T_, loc)
        v = T_.simp(v) if v.conds else v
        if r.func == "dhara_journal_capacity":
            bl, bc = S("bb_last", 32), S("bb_current", 32)
            mx = ite(ult(bc, bl), bl, bc)
            cps = shl(sub(addk(NB, -1), mx), sub(PPBz, PPCz))
            cx.ob(("C21",), "capacity-formula", T_, eq(v, sub(shl(cps, PPCz), cps)), loc)
        elif r.func == "dhara_journal_size":
            h, t = page("head"), page("tail_sync")
            tot = CHIP32
            np_ = ite(ult(h, t), add(h, tot), h)
            nc = ite(ult(h, t), add(div(h, PPCz), shl(NB, sub(PPBz, PPCz))), div(h, PPCz))
            cx.ob(("C21",), "size-formula", T_, eq(v, sub(sub(np_, t), sub(nc, div(t, PPCz)))), loc)
        elif r.func == "dhara_journal_read_meta":
            read_meta_exit(r, cx, T_, v, evs, loc)
    common_rules(r, cx)


def read_meta_exit(r, cx, T_, v, evs, loc):
    m, eng = r.m, r.eng
    p = page("p")
    G = lambda f: getf(m, T_.mem, T_, f)
    rd = [e for e in evs if e.kind == "read"]
    inbuf = same(p, G("head"), PPCz)
    k4 = scale(zext(KSYM, 64), 4)
    rv = cen(cv(v), 32) if isc(v) else None
    if not rd:
        cx.ob(("C23",), "buffered-source", T_, band(inbuf, C(1 if rv == 0 else 0, 1)), loc)
        s2 = T_.fork()
        s2.assume(ge0(addk(neg(toZ(KSYM)), 32)), True)
        got = eng.rd32(s2, T_.buf.get("BUF", eng.bufobjs["BUF"]), k4)
        cx.ob(("C23", "C15"), "buffered-slot", s2, eq(got, word("PB", add(slot(p), k4))), loc)
        return
    cx.fact(("C23",), "one-read", len(rd) == 1, loc, "%d reads" % len(rd), T_)
    e = rd[-1]
    rm, rr = G("recover_meta"), G("recover_root")
    dumped = band(bnot(eq(rm, C(NONE, 32))), same(p, rr, PPCz))
    want = ite(dumped, rm, addk(add(align_down(p, PPCz), p2(PPCz, 32)), -1))
    cx.ob(("C23",), "flash-source", T_, band(bnot(inbuf), eq(e.args[1], want)), e.loc)
    cx.ob(("C23", "C15"), "flash-slot", T_, band(eq(zext(e.args[2], 64), slot(p)), eq(zext(e.args[3], 64), C(META, 64))), e.loc)
    cx.fact(("C23",), "flash-dest", e.args[4].op == "ptr" and e.args[4].a[0] == "BUF" and isc(e.args[4].a[1]) and cv(e.args[4].a[1]) == 0,
            e.loc, "reads into %r" % (e.args[4],), T_)
    cx.fact(("C13", "C08"), "read-result", rv == (0 if e.ok else -1), e.loc, "returns %r after read %s" % (v, e.ok), T_)
    if not e.ok:
        cx.ob(("C13",), "read-error", T_, err_is(T_, e.extra), e.loc)


def rules_tail(r, cx):
    m, E, eng = r.m, r.m.nm.e, r.eng
    for T_, v in r.exits:
        evs = T_.events()
        loc = evs[-1].loc if evs else r.loc0
        G1 = lambda f: getf(m, T_.mem, T_, f)
        G0 = lambda f: getf(m, r.st0.mem, T_, f)
        no_modify(r, cx, ("C14", "C24"), T_)
        h, t0, t1 = G0("head"), G0("tail"), G1("tail")
        if v is not None:
            v = T_.simp(v) if v.conds else v
        if r.func == "dhara_journal_peek":
            state_kept(r, cx, ("C24", "C14"), "peek", T_, [f for f in JF if f not in ("tail", "root")], loc)
            buf_kept(r, cx, ("C24", "C14"), "peek-buffer", T_, loc)
            empty = eq(h, t0)
            cx.ob(("C24", "C11"), "peek-empty", T_, implies(empty, band(eq(v, C(NONE, 32)), eq(t1, t0), eq(G1("root"), G0("root")))), loc)
            cx.ob(("C24", "C11"), "peek-tail", T_, implies(bnot(empty), band(eq(v, t1))), loc)
            qs = [e for e in evs if e.kind == "is_bad"]
            loops = [e for e in evs if e.kind == "LOOP"]
            moved = bnot(eq(t1, t0))
            # off a block boundary nothing moves; at one the tail moves only to a block start
            cx.ob(("C24",), "peek-mid-block", T_, implies(bnot(aligned(t0, PPBz)), eq(t1, t0)), loc)
            if not isc(moved):
                cx.ob(("C24",), "peek-to-block-start", T_, bor(eq(t1, t0), aligned(t1, PPBz)), loc)
                if qs and qs[-1].ok is False:
                    cx.ob(("C24", "C11"), "peek-good-block", T_, bor(eq(t1, t0), eq(blk(t1), qs[-1].args[1])), loc)
                else:
                    cx.ob(("C24", "C11"), "peek-head-block", T_, bor(eq(t1, t0), same(t1, h, PPBz)), loc)
            cx.ob(("C24",), "peek-root", T_, eq(G1("root"), ite(band(bnot(empty), eq(t1, h)), C(NONE, 32), G0("root"))), loc)
        elif r.func == "dhara_journal_dequeue":
            state_kept(r, cx, ("C24", "C14"), "dequeue", T_, [f for f in JF if f not in ("tail", "root", "tail_sync")], loc)
            buf_kept(r, cx, ("C24", "C14"), "dequeue-buffer", T_, loc)
            empty = eq(h, t0)
            cx.ob(("C24", "C11"), "dequeue-step", T_, eq(t1, ite(empty, t0, NU(t0))), loc)
            clean = band(bnot(flag(m, r.st0.mem, T_, F_DIRTY)), bnot(flag(m, r.st0.mem, T_, F_RECOVERY)))
            cx.ob(("C03", "C06", "C24"), "dequeue-sync-tail", T_,
                  eq(G1("tail_sync"), ite(band(clean, bnot(empty)), t1, G0("tail_sync"))), loc)
            # root dropped exactly when it is no longer inside [tail, head)
            r0, r1 = G0("root"), G1("root")
            off = lambda x: ite(ult(add(h, CHIP32), add(x, CHIP32)), sub(add(h, CHIP32), x), ite(ult(sub(add(h, CHIP32), x), CHIP32), sub(add(h, CHIP32), x), sub(sub(add(h, CHIP32), x), CHIP32)))
            dist = lambda x: ite(ult(h, x), sub(add(h, CHIP32), x), sub(h, x))
            gone = ult(dist(t1), dist(r0))
            cx.ob(("C24",), "dequeue-root", T_,
                  ite(bor(empty, eq(r0, C(NONE, 32))), eq(r1, r0), eq(r1, ite(gone, C(NONE, 32), r0))), loc)
        elif r.func == "dhara_journal_clear":
            state_kept(r, cx, ("C22",), "clear", T_, [f for f in JF if f not in ("tail", "root", "flags")], loc)
            cx.ob(("C22", "C24"), "clear-empty", T_, band(eq(t1, h), eq(G1("root"), C(NONE, 32))), loc)
            cx.ob(("C01", "C22"), "clear-dirty", T_, flag(m, T_.mem, T_, F_DIRTY), loc)
            for b in (F_BADMETA, F_RECOVERY, F_ENUM):
                cx.ob(("C22",), "clear-flags", T_, eq(flag(m, T_.mem, T_, b), flag(m, r.st0.mem, T_, b)), loc)
            cx.ob(("C03", "C22"), "clear-keeps-protection", T_, eq(G1("tail_sync"), G0("tail_sync")), loc)
            cleared(r, cx, ("C22", "C10"), "clear-metadata", T_, pbc(r, T_.buf), loc)
            cx.ob(("C22",), "clear-keeps-cookie", T_, eq(eng.rd32(T_, pbc(r, T_.buf), C(HDR, 64)), word("PB", C(HDR, 64))), loc)
        elif r.func == "dhara_journal_next_recoverable":
            fl = lambda b: flag(m, r.st0.mem, T_, b)
            act = band(fl(F_RECOVERY), bnot(fl(F_ENUM)))
            rn, rr = G0("recover_next"), G0("recover_root")
            last = eq(rn, rr)
            cx.ob(("C06", "C07", "C11"), "enum-returns", T_, eq(v, ite(act, rn, C(NONE, 32))), loc)
            cx.ob(("C06", "C07", "C11"), "enum-advances", T_, eq(G1("recover_next"), ite(band(act, bnot(last)), NU(rn), rn)), loc)
            cx.ob(("C06", "C07", "C11"), "enum-done", T_, eq(flag(m, T_.mem, T_, F_ENUM), bor(fl(F_ENUM), band(act, last))), loc)
            for b in (F_DIRTY, F_RECOVERY, F_BADMETA):
                cx.ob(("C06",), "enum-flags", T_, eq(flag(m, T_.mem, T_, b), fl(b)), loc)
            state_kept(r, cx, ("C06",), "enum", T_, [f for f in JF if f not in ("recover_next", "flags")], loc)
    common_rules(r, cx)


def jobs(func):
    """case split of the analysis of one entry point (for speed only)"""
    out = []
    for rec in ((False,) if func in ANYMODE else (False, True)):
        if func == "dhara_journal_enqueue":
            for d in (True, False):
                for mt in (True, False):
                    out.append((func, rec, ((nonnull("?DATA"), d), (nonnull("?META"), mt))))
        elif func == "dhara_journal_copy":
            for mt in (True, False):
                out.append((func, rec, ((nonnull("?META"), mt),)))
        else:
            out.append((func, rec, ()))
    return out


RULES = {
    "dhara_journal_enqueue": rules_write, "dhara_journal_copy": rules_write,
    "dhara_journal_capacity": rules_query, "dhara_journal_size": rules_query,
    "dhara_journal_read_meta": rules_query,
    "dhara_journal_peek": rules_tail, "dhara_journal_dequeue": rules_tail,
    "dhara_journal_clear": rules_tail, "dhara_journal_next_recoverable": rules_tail,
}
