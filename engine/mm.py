"""The map layer: dhara_map_* explored against the journal's contract.

The journal's public functions are replaced by what their own checks prove
about them: success or failure, the error stored on failure, which fields may
change.  Public map functions called by other map functions are replaced in
the same way (each is checked on its own)."""
import ir
from ir import AnalysisBroken
from terms import *
from absint import Engine, State, Event, Content
from model import *

JERR = {"read": (1, 3), "mod": (1, 5), "map": (1, 8)}


class MapModel(Model):
    def __init__(s, mod):
        s.m = mod
        s.nm = Names(mod)
        if s.nm.m is None:
            raise AnalysisBroken("struct dhara_map not found")
        for f in ("journal", "gc_ratio", "count"):
            if f not in s.nm.m:
                raise AnalysisBroken("struct dhara_map has no field " + f)
        s.jobj, s.joff, s.nobj = "M", s.nm.m["journal"][0], "N"
        s.init = {}
        s.eng = None

    def mo(s, f):
        return ("M", s.nm.m[f][0])

    def mget(s, mem, st, f):
        k = s.mo(f)
        v = mem.get(k)
        if v is None:
            v = s.objinit(k[0], k[1], s.nm.m[f][1] * 8)
        if v is None:
            v = s.eng.initval(k[0], k[1], s.nm.m[f][1] * 8)
        return st.simp(v) if v.conds else v

    def jget(s, mem, st, f):
        k = s.fo(f)
        v = mem.get(k)
        if v is None:
            v = s.objinit(k[0], k[1], s.nm.jw(f))
        if v is None:
            v = s.eng.initval(k[0], k[1], s.nm.jw(f))
        return st.simp(v) if v.conds else v

    # -- what a journal call may change -------------------------------------------
    def havoc(s, eng, st, fields, root=None):
        st.thaw()
        st._mp = None
        for f in fields:
            st.mem[s.fo(f)] = eng.fresh("h_" + f, s.nm.jw(f))
        if root is not None:
            st.mem[s.fo("root")] = root

    def flagbits(s, eng, st, keep=(), setb=(), clr=()):
        old = s.jget(st.mem, st, "flags")
        bs = []
        for i in range(8):
            if i in keep or i > 3:
                bs.append(fbit(old, i))
            elif i in setb:
                bs.append(TRUE)
            elif i in clr:
                bs.append(FALSE)
            else:
                bs.append(eng.fresh("fl%d" % i, 1))
        st.thaw()
        st.mem[s.fo("flags")] = bitsv(tuple(bs))

    def keep_cookie(s, eng, st):
        """metadata in the page buffer changes, the cookie does not"""
        st.thaw()
        old = eng.content(st, "PB")
        n = eng.fresh("pb", 8)
        c = Content(("space", n.a[0], ()))
        for k in range(COOKIE):
            c = eng.wrbyte(st, c, C(HDR + k, 64), eng.rdbyte(st, old, C(HDR + k, 64)))
        st.buf["PB"] = c

    def newroot(s, eng, st, none=False):
        r = eng.fresh("root", 32, 0, PMAX)
        if none:
            return ite(eng.fresh("hasroot", 1), r, C(NONE, 32))
        return r

    ALL = ("head", "epoch", "bb_current", "bb_last", "tail_sync", "tail", "recover_next", "recover_root", "recover_meta")

    def externs(s, only):
        def mod_ok(eng, fr, ins, st, a):
            s.havoc(eng, st, s.ALL, s.newroot(eng, st))
            s.flagbits(eng, st)
            s.keep_cookie(eng, st)

        def mod_fail(eng, fr, ins, st, a):
            s.havoc(eng, st, s.ALL, s.newroot(eng, st, True))
            s.flagbits(eng, st)
            s.keep_cookie(eng, st)

        def rd_ok(eng, fr, ins, st, a):
            j, p, dst = a[:3]
            if not eng.chk_null(fr, ins, st, dst) or dst.op != "ptr":
                return
            eng.access(st, dst.a[0], dst.a[1], META, True, ins, fr)
            st.thaw()
            if isc(dst.a[1]) and cv(dst.a[1]) == 0:
                st.buf[dst.a[0]] = Content(("space", "META", (p,)))
            else:
                st.buf[dst.a[0]] = eng.wrrange(st, eng.content(st, dst.a[0]), dst.a[1], C(META, 64), "src", ("META", (p,), C(0, 64)))

        def rd_fail(eng, fr, ins, st, a):
            dst = a[2]
            if dst.op == "ptr":
                st.thaw()
                eng.access(st, dst.a[0], dst.a[1], META, True, ins, fr)
                st.buf[dst.a[0]] = Content(("opaque", eng.fresh("garbage", 8).a[0]))

        def nread_ok(eng, fr, ins, st, a):
            n, p, off, ln, dst = a[:5]
            if not eng.chk_null(fr, ins, st, dst) or dst.op != "ptr":
                return
            eng.access(st, dst.a[0], dst.a[1], ln, True, ins, fr)
            st.thaw()
            st.buf[dst.a[0]] = eng.wrrange(st, eng.content(st, dst.a[0]), dst.a[1], ln, "src", ("page", (p,), off))

        def nread_fail(eng, fr, ins, st, a):
            n, p, off, ln, dst = a[:5]
            if dst.op == "ptr":
                eng.access(st, dst.a[0], dst.a[1], ln, True, ins, fr)
                st.thaw()
                st.buf[dst.a[0]] = Content(("opaque", eng.fresh("garbage", 8).a[0]))

        def call(kind, errs, errarg, ok=None, bad=None):
            def h(eng, fr, ins, st, args):
                loc = eng.where(fr, ins)
                out = []
                for good in (True, False):
                    n = st.fork()
                    n.thaw()
                    ev = Event(kind, tuple(args), good, n, loc, fr.stack)
                    n.add(ev)
                    n = n.fork()
                    n.thaw()
                    if good:
                        if ok:
                            ok(eng, fr, ins, n, args)
                    else:
                        v = eng.fresh("err_" + kind, 32, *errs)
                        if errs == JERR["map"] and kind != "jresume":
                            # C07 recovery-never-surfaces, checked on each of them
                            n.assume(bnot(eq(v, C(s.nm.e["RECOVER"], 32))))
                        ev.extra = v
                        if errarg is not None:
                            s.set_err(eng, fr, ins, n, args[errarg], v)
                        if bad:
                            bad(eng, fr, ins, n, args)
                    out.append((n, C(0, 32) if good else C(-1, 32)))
                return out
            return h

        def value(kind, mk_, effect=None):
            def h(eng, fr, ins, st, args):
                loc = eng.where(fr, ins)
                out = []
                for v in mk_(eng, st):
                    n = st.fork()
                    n.thaw()
                    n.add(Event(kind, tuple(args), None, n, loc, fr.stack, v))
                    n = n.fork()
                    n.thaw()
                    if effect:
                        effect(eng, n, v)
                    out.append((n, v))
                return out
            return h

        def pages(nm):
            def f(eng, st):
                p = eng.fresh(nm, 32, 0, PMAX)
                return [C(NONE, 32), p]
            return f

        def peek_eff(eng, n, v):
            r = s.jget(n.mem, n, "root")
            s.havoc(eng, n, ("tail",))
            if not isc(v):
                n.mem[s.fo("root")] = ite(eng.fresh("drop", 1), C(NONE, 32), r)

        def next_eff(eng, n, v):
            s.havoc(eng, n, ("recover_next",))
            s.flagbits(eng, n, keep=(0, 1, 2))

        def deq_eff(eng, n, v):
            r = s.jget(n.mem, n, "root")
            s.havoc(eng, n, ("tail", "tail_sync"))
            n.mem[s.fo("root")] = ite(eng.fresh("drop", 1), C(NONE, 32), r)

        def clear_eff(eng, n, v):
            s.havoc(eng, n, ("tail",), C(NONE, 32))
            s.flagbits(eng, n, keep=(1, 2, 3), setb=(0,))
            s.keep_cookie(eng, n)

        def init_eff(eng, fr, n, a):
            n.thaw()
            s.havoc(eng, n, s.ALL, C(NONE, 32))
            n.mem[s.fo("nand")] = a[1]
            n.mem[s.fo("page_buf")] = a[2]
            n.mem[s.fo("flags")] = C(0, 8)

        def init(eng, fr, ins, st, args):
            n = st.fork()
            n.thaw()
            n.add(Event("jinit", tuple(args), None, n, eng.where(fr, ins), fr.stack))
            n = n.fork()
            init_eff(eng, fr, n, args)
            return [(n, None)]

        def res_ok(eng, fr, ins, st, a):
            s.havoc(eng, st, s.ALL, s.newroot(eng, st))
            st.mem[s.fo("flags")] = C(0, 8)
            st.buf["PB"] = Content(("space", eng.fresh("pbr", 8).a[0], ()))

        def res_fail(eng, fr, ins, st, a):
            s.havoc(eng, st, s.ALL, C(NONE, 32))
            st.mem[s.fo("flags")] = C(0, 8)
            st.buf["PB"] = Content(("space", eng.fresh("pbr", 8).a[0], ()))

        def map_eff(cnt):
            def f(eng, fr, ins, st, a):
                s.havoc(eng, st, s.ALL, s.newroot(eng, st, True))
                s.flagbits(eng, st)
                st.buf["PB"] = Content(("space", eng.fresh("pbm", 8).a[0], ()))
                if cnt:
                    st.mem[s.mo("count")] = eng.fresh("count", 32)
            return f

        def val1(nm):
            return lambda eng, st: [eng.fresh(nm, 32)]
        ex = {
            "dhara_journal_read_meta": call("jread", JERR["read"], 3, rd_ok, rd_fail),
            "dhara_journal_enqueue": call("jenq", JERR["mod"], 3, mod_ok, mod_fail),
            "dhara_journal_copy": call("jcopy", JERR["mod"], 3, mod_ok, mod_fail),
            "dhara_journal_peek": value("jpeek", pages("tailpage"), peek_eff),
            "dhara_journal_dequeue": value("jdeq", lambda e, st: [C(0, 32)], deq_eff),
            "dhara_journal_next_recoverable": value("jnext", pages("recpage"), next_eff),
            "dhara_journal_clear": value("jclear", lambda e, st: [C(0, 32)], clear_eff),
            "dhara_journal_resume": call("jresume", JERR["map"], 1, res_ok, res_fail),
            "dhara_journal_init": init,
            "dhara_journal_capacity": value("jcap", lambda e, st: [S("jcap", 32, 0, 1 << 30)]),
            "dhara_journal_size": value("jsize", val1("jsize")),
            "dhara_nand_read": call("nread", JERR["read"], 5, nread_ok, nread_fail),
        }
        summ = {
            "dhara_map_gc": call("mgc", JERR["map"], 1, map_eff(False), map_eff(False)),
            "dhara_map_trim": call("mtrim", JERR["map"], 2, map_eff(True), map_eff(False)),
            "dhara_map_copy_page": call("mcopy", JERR["map"], 3, map_eff(True), map_eff(False)),
            "dhara_map_write": call("mwrite", JERR["map"], 3, map_eff(True), map_eff(False)),
            "dhara_map_sync": call("msync", JERR["map"], 1, map_eff(False), map_eff(False)),
            "dhara_map_capacity": value("mcap", val1("mcap")),
            "dhara_map_clear": value("mclear", lambda e, st: [C(0, 32)], lambda eng, n, v: map_eff(True)(eng, None, None, n, None)),
        }
        for k, v in summ.items():
            if k in only:
                ex[k] = v
        def other(eng, fr, ins, st, args, name):
            eng.note(st, fr, ins, "call of unmodelled function " + name)
            n = st.fork()
            n.thaw()
            n.add(Event("other:" + name, tuple(args), None, n, eng.where(fr, ins), fr.stack))
            n = n.fork()
            return [(n, eng.fresh("ret_" + name, 32) if ins.res else None)]
        ex["*"] = other
        return ex

    def map_state(s):
        I = s.init
        o = s.fo
        I[o("nand")] = ptr("N")
        I[o("page_buf")] = ptr("PB")
        I[o("log2_ppc")] = PPC
        I[o("epoch")] = S("epoch", 8)
        I[o("flags")] = S("flags", 8)
        for f in ("bb_current", "bb_last", "tail_sync", "tail", "head", "recover_next", "recover_root", "recover_meta"):
            I[o(f)] = S(f, 32)
        I[o("root")] = ite(S("has_root", 1), page("root"), C(NONE, 32))
        I[s.mo("count")] = S("count", 32)
        I[s.mo("gc_ratio")] = S("gc_ratio", 8)
        return State()


ERRP = ptr("?ERR")
MARGS = {
    "dhara_map_init": lambda: (ptr("M"), ptr("N"), ptr("PB"), S("ratio", 8)),
    "dhara_map_resume": lambda: (ptr("M"), ERRP),
    "dhara_map_clear": lambda: (ptr("M"),),
    "dhara_map_capacity": lambda: (ptr("M"),),
    "dhara_map_find": lambda: (ptr("M"), S("target", 32), ptr("?LOC"), ERRP),
    "dhara_map_read": lambda: (ptr("M"), S("target", 32), ptr("DATA"), ERRP),
    "dhara_map_write": lambda: (ptr("M"), S("target", 32), ptr("DATA"), ERRP),
    "dhara_map_copy_page": lambda: (ptr("M"), page("srcpage"), S("target", 32), ERRP),
    "dhara_map_copy_sector": lambda: (ptr("M"), S("source", 32), S("target", 32), ERRP),
    "dhara_map_trim": lambda: (ptr("M"), S("target", 32), ERRP),
    "dhara_map_sync": lambda: (ptr("M"), ERRP),
    "dhara_map_gc": lambda: (ptr("M"), ERRP),
}
# public functions treated by their contract when another one calls them
SUMM = {
    "dhara_map_write": ("dhara_map_gc", "dhara_map_capacity"),
    "dhara_map_copy_page": ("dhara_map_gc", "dhara_map_capacity"),
    "dhara_map_trim": ("dhara_map_gc", "dhara_map_capacity", "dhara_map_clear"),
    "dhara_map_copy_sector": ("dhara_map_gc", "dhara_map_capacity", "dhara_map_trim", "dhara_map_copy_page"),
    "dhara_map_sync": ("dhara_map_gc",),
}


class MRun:
    pass


def explore_map(func, assume=()):
    import rj
    m = MapModel(rj.lib())
    st = m.map_state()
    st.assume(rj.GEOM)
    for c, v in assume:
        st.assume(c, v)
    e = Engine(m.m, m.externs(SUMM.get(func, ())), m.objinit, {"access": True, "prove": rj.prove_lite, "itmax": 1 << 24})
    m.eng = e
    e.model = m
    e.bufobjs["PB"] = Content(("space", "PB", ()))
    e.sizes["PB"] = p2(LPSz, 64)
    e.bufobjs["DATA"] = Content(("space", "DATA", ()))
    e.sizes["DATA"] = p2(LPSz, 64)
    if func not in m.m.funcs:
        raise AnalysisBroken("public function %s not found" % func)
    r = MRun()
    r.func, r.m, r.eng, r.st0 = func, m, e, st
    r.exits = e.call_fn(func, MARGS[func](), st.fork())
    r.loc0 = m.m.loc(m.m.funcs[func].dbg) if getattr(m.m.funcs[func], "dbg", None) else ("map.c", 0)
    r.part = (0, 1)
    return r
