"""Abstract environment of the dhara library: symbolic journal/map state at
entry (the documented invariants), models of the user-supplied NAND driver and
of the journal API as seen from map.c."""
import terms
from terms import *
import ir
from ir import AnalysisBroken
from absint import Engine, State, Event, Content

NONE = 0xffffffff
JF = ("nand", "page_buf", "log2_ppc", "epoch", "flags", "bb_current", "bb_last", "tail_sync", "tail", "head",
      "root", "recover_next", "recover_root", "recover_meta")


class Names:
    """field offsets and constants taken from the current source's debug info"""

    def __init__(s, mod):
        s.j = mod.struct_fields("dhara_journal")
        s.n = mod.struct_fields("dhara_nand")
        s.m = mod.struct_fields("dhara_map")
        if s.j is None or s.n is None:
            raise AnalysisBroken("struct dhara_journal/dhara_nand not found")
        for f in JF:
            if f not in s.j:
                raise AnalysisBroken("struct dhara_journal has no field " + f)
        en = mod.enums()
        s.e = {}
        for k in ("NONE", "BAD_BLOCK", "ECC", "TOO_BAD", "RECOVER", "JOURNAL_FULL", "NOT_FOUND", "MAP_FULL", "CORRUPT_MAP"):
            if "DHARA_E_" + k not in en:
                raise AnalysisBroken("enumerator DHARA_E_%s not found" % k)
            s.e[k] = en["DHARA_E_" + k]

    def jw(s, f):
        return s.j[f][1] * 8


# on-flash / API constants fixed by the documented format (journal.h)
HDR, COOKIE, META, RETRIES = 16, 4, 132, 8
F_DIRTY, F_BADMETA, F_RECOVERY, F_ENUM = 0, 1, 2, 3   # bit numbers

PPC = S("ppc", 8, 1, 8)
PPB = S("ppb", 8, 1, 12)
LPS = S("lps", 8, 8, 16)
NB = S("nb", 32, 2, 1 << 18)
PPCz, PPBz, LPSz, NBz = map(toZ, (PPC, PPB, LPS, NB))
terms.LE_PAIRS.append((PPC, PPB))
CHIPz = mul(NBz, p2(PPBz, 0))
CHIP32 = mul(NB, p2(PPBz, 32))
PMAX = (1 << 30) - 1


def page(name):
    return S(name, 32, 0, PMAX)


def lt_chip(p):
    return ge0(addk(sub(CHIPz, toZ(p)), -1))


class Model:
    def __init__(s, tu, extra=(), jobj="J", joff=0, nobj="N"):
        s.m = ir.load(tu, extra) if isinstance(tu, str) else tu
        s.nm = Names(s.m)
        s.jobj, s.joff, s.nobj = jobj, joff, nobj
        s.init = {}
        s.eng = None

    def fo(s, f):
        return (s.jobj, s.joff + s.nm.j[f][0])

    def get(s, st, f):
        k = s.fo(f)
        v = st.mem.get(k)
        if v is None:
            v = s.objinit(k[0], k[1], s.nm.jw(f))
        return st.simp(v)

    def objinit(s, obj, off, w):
        v = s.init.get((obj, off))
        if v is not None:
            return v
        if obj == s.nobj:
            for f, t in (("log2_page_size", LPS), ("log2_ppb", PPB), ("num_blocks", NB)):
                if s.nm.n[f][0] == off:
                    return t
        return None

    # -- NAND driver ----------------------------------------------------------
    def engine(s, externs=None, opts=None):
        ex = dict(s.nand_externs()) if externs is None else externs
        e = Engine(s.m, ex, s.objinit, opts)
        e.bufobjs["PB"] = Content(("space", "PB", ()))
        e.sizes["PB"] = p2(LPSz, 64)
        e.model = s
        s.eng = e
        return e

    def set_err(s, eng, fr, ins, st, p, v):
        """driver stores an error code through p (if not NULL)"""
        if p.op == "ptr":
            st.thaw()
            if p.a[0] in NULLABLE:
                old = st.mem.get((p.a[0], 0))
                if old is None:
                    old = S(p.a[0] + "+0", 32)
                st.mem[(p.a[0], 0)] = ite(nonnull(p.a[0]), v, old)
            else:
                st.mem[(p.a[0], cv(p.a[1]))] = v
        elif p.op == "ite":
            eng.note(st, fr, ins, "gated error pointer")

    def fresh_err(s, eng, st, what):
        v = eng.fresh("err_" + what, 32, 1, 3 if what != "read" else 3)
        return v

    def fork_op(s, kind, fail_effect=None, ok_effect=None, errarg=None):
        def h(eng, fr, ins, st, args):
            loc = eng.where(fr, ins)
            a = [x for x in args]
            out = []
            for ok in (True, False):
                n = st.fork()
                n.thaw()
                ev = Event(kind, tuple(a), ok, n, loc, fr.stack)
                n.add(ev)
                n = n.fork()
                n.thaw()
                if ok:
                    if ok_effect:
                        ok_effect(eng, fr, ins, n, a)
                else:
                    v = s.fresh_err(eng, n, kind)
                    ev.extra = v
                    if errarg is not None:
                        s.set_err(eng, fr, ins, n, a[errarg], v)
                    if fail_effect:
                        fail_effect(eng, fr, ins, n, a)
                out.append((n, C(0, 32) if ok else C(-1, 32)))
            return out
        return h

    def nand_externs(s):
        def read_ok(eng, fr, ins, st, a):
            n, p, off, ln, dst = a[:5]
            if not eng.chk_null(fr, ins, st, dst):
                return
            eng.access(st, dst.a[0], dst.a[1], ln, True, ins, fr)
            st.buf[dst.a[0]] = eng.wrrange(st, eng.content(st, dst.a[0]), dst.a[1], ln, "src", ("page", (p,), off))

        def read_fail(eng, fr, ins, st, a):
            n, p, off, ln, dst = a[:5]
            if dst.op != "ptr":
                return
            eng.access(st, dst.a[0], dst.a[1], ln, True, ins, fr)
            g = eng.fresh("garbage", 8)
            st.buf[dst.a[0]] = eng.wrrange(st, eng.content(st, dst.a[0]), dst.a[1], ln, "src", (g.a[0], (), C(0, 64)))

        def query(kind):
            def h(eng, fr, ins, st, args):
                loc = eng.where(fr, ins)
                # the driver's answer is a value that stays fixed until the
                # medium changes; identical queries agree
                out = []
                for r in (True, False):
                    n = st.fork()
                    n.thaw()
                    ev = Event(kind, tuple(args), r, n, loc, fr.stack)
                    n.add(ev)
                    n = n.fork()
                    n.thaw()
                    v = C(0, 32)
                    if r:
                        v = eng.fresh("nz_" + kind, 32, 1, M(32))
                    out.append((n, v))
                return out
            return h

        def simple(kind):
            def h(eng, fr, ins, st, args):
                loc = eng.where(fr, ins)
                n = st.fork()
                n.thaw()
                n.add(Event(kind, tuple(args), None, n, loc, fr.stack))
                n = n.fork()
                n.thaw()
                return [(n, None)]
            return h

        def prog_pre(h):
            def g(eng, fr, ins, st, args):
                d = args[2]
                if d.op == "ite":
                    return eng.split_ptrs(st, args, (2,), lambda st, a: g(eng, fr, ins, st, a))
                eng.chk_null(fr, ins, st, d)
                if d.op == "ptr" and eng.is_buf(d.a[0]):
                    eng.access(st, d.a[0], d.a[1], p2(LPSz, 64), False, ins, fr)
                return h(eng, fr, ins, st, args)
            return g
        return {
            "dhara_nand_is_bad": query("is_bad"),
            "dhara_nand_is_free": query("is_free"),
            "dhara_nand_mark_bad": simple("mark_bad"),
            "dhara_nand_erase": s.fork_op("erase", errarg=2),
            "dhara_nand_prog": prog_pre(s.fork_op("prog", errarg=3)),
            "dhara_nand_copy": s.fork_op("copy", errarg=3),
            "dhara_nand_read": s.fork_op("read", ok_effect=read_ok, fail_effect=read_fail, errarg=5),
        }

    # -- symbolic entry state -----------------------------------------------------
    def journal_state(s, recovery=None, anything=False):
        """recovery: in recovery at entry?  anything: an object in any state whatever"""
        nm = s.nm
        I = s.init
        o = lambda f: s.fo(f)
        I[o("nand")] = ptr(s.nobj)
        I[o("page_buf")] = ptr("PB")
        I[o("log2_ppc")] = PPC
        I[o("epoch")] = S("epoch", 8)
        I[o("flags")] = S("flags", 8)
        I[o("bb_current")] = S("bb_current", 32)
        I[o("bb_last")] = S("bb_last", 32)
        for f in ("tail_sync", "tail", "head"):
            I[o(f)] = page(f)
        I[o("root")] = ite(S("has_root", 1), page("root"), C(NONE, 32))
        I[o("recover_next")] = page("recover_next")
        I[o("recover_root")] = page("recover_root")
        I[o("recover_meta")] = page("recover_meta")
        if anything:
            for f in ("tail_sync", "tail", "head", "root", "recover_next", "recover_root", "recover_meta"):
                I[o(f)] = S("old_" + f, 32)
            return State()
        st = State()
        fl = S("flags", 8)
        rec = mk("fb", 1, fl, F_RECOVERY)
        for f in ("tail_sync", "tail", "head"):
            assert st.assume(lt_chip(page(f)))
            st.assume(upage(page(f)))
        if recovery is False:
            st.assume(rec, False)
            for b in (F_BADMETA, F_ENUM):
                st.assume(mk("fb", 1, fl, b), False)
            for f in ("recover_next", "recover_root", "recover_meta"):
                I[o(f)] = C(NONE, 32)
        elif recovery is True:
            st.assume(rec, True)
            I[o("recover_meta")] = ite(S("has_dump", 1), page("recover_meta"), C(NONE, 32))
            for f in ("recover_next", "recover_root", "recover_meta"):
                st.assume(lt_chip(page(f)))
        return st


def upage(p):
    """p is not a checkpoint position: (p+1) mod 2^ppc != 0"""
    return bnot(eq0(mod(addk(toZ(p), 1), PPCz)))
