"""Units of analysis and the properties each of them has obligations for."""
import gc
import os
import time
import traceback
import ir
import oblig
from ir import AnalysisBroken
from terms import nonnull

JBASE = "C13 C16"
JW = "C01 C02 C03 C04 C05 C06 C07 C09 C11 C12 C13 C15 C16 C18 C20 C23 C24 C25"
JPROPS = {
    "dhara_journal_enqueue": JW, "dhara_journal_copy": JW,
    "dhara_journal_capacity": "C14 C21", "dhara_journal_size": "C14 C21",
    "dhara_journal_read_meta": "C08 C13 C14 C15 C16 C23",
    "dhara_journal_peek": "C11 C14 C18 C24", "dhara_journal_dequeue": "C03 C06 C11 C14 C24",
    "dhara_journal_clear": "C01 C03 C10 C22 C24 C16", "dhara_journal_next_recoverable": "C06 C07 C11 C14",
    "dhara_journal_resume": "C01 C02 C03 C04 C06 C12 C13 C14 C15 C16 C18 C19 C20 C25",
    "dhara_journal_init": "C12 C14 C15 C16 C18 C19 C26",
}
MW = "C07 C08 C09 C11 C12 C13 C15 C16 C18"
MPROPS = {
    "dhara_map_find": "C07 C08 C09 C13 C14 C16 C18", "dhara_map_read": "C07 C08 C13 C14 C16 C18 C22",
    "dhara_map_write": MW + " C22", "dhara_map_copy_page": MW + " C22", "dhara_map_trim": MW + " C10",
    "dhara_map_sync": MW + " C01", "dhara_map_gc": MW, "dhara_map_copy_sector": "C07 C08 C13 C16 C18 C22",
    "dhara_map_clear": "C01 C12 C22", "dhara_map_capacity": "C14 C21", "dhara_map_resume": "C12 C13 C15 C19",
    "dhara_map_init": "C12 C26",
}
NOERR = ("dhara_map_clear", "dhara_map_capacity", "dhara_map_init")   # take no error pointer
PARTS = {"dhara_journal_resume": 4}      # analysed in several processes


class Task:
    def __init__(s, name, props, fn, arg, weight=1, uses="lib", limit=1e9):
        s.name, s.props, s.fn, s.arg = name, set(props.split()), fn, arg
        s.weight = weight
        s.limit = limit          # seconds
        s.uses = uses            # set of modules to load before forking


def run_rj(arg, want):
    import rj
    import rr
    func, rec, asm, part = arg
    asm = [((nonnull(a) if isinstance(a, str) else a), v) for a, v in asm]
    r = rj.explore(func, rec, asm)
    cx = oblig.Ctx(want, r.eng, func, "[rec]" if rec else "")
    r.part = part
    rj.RULES[func](r, cx)
    if part[0] == 0:
        rr.loop_bounds(r, cx)
    return pack(cx, r.eng)


def lazy(mod, fn):
    def f(arg, want):
        return getattr(__import__(mod), fn)(arg, want)
    return f


def run_map(arg, want):
    import rm
    func, noerr = arg
    r, cx = rm.run(func, want, noerr)
    return pack(cx, r.eng)


def pack(cx, eng):
    cx.finish()
    notes = [str(n)[:300] for n in eng.notes]
    notes += ["loop not stable: " + str(l.name) for l in eng.loops if not l.stable]
    return dict(out=[o.tup() for o in cx.out], notes=notes,
                functions=sorted(eng.analysed), callsites=eng.callsites, steps=eng.nsteps, loops=len(eng.loops))


def all_tasks():
    import rj
    out = []
    for f, p in JPROPS.items():
        for func, rec, asm in rj.jobs(f):
            asm2 = tuple((a.a[0] if a.op == "nn" else a, v) for a, v in asm)
            nm = f + ("[rec]" if rec else "") + "".join(",%s%s" % ("" if v else "!", a) for a, v in asm2)
            n = PARTS.get(f, 1)
            for i in range(n):
                out.append(Task(nm + ("#%d" % (i + 1) if n > 1 else ""), p, run_rj, (func, rec, asm2, (i, n)), 10 if not rec else 2))
    for f, p in MPROPS.items():
        out.append(Task(f, p, run_map, (f, False), 3))
        if f not in NOERR:
            out.append(Task(f + "[no error pointer]", "C13 C16", run_map, (f, True), 3))
    # ECC, error texts, tools
    deep = os.environ.get("VERIF_TIER") == "thorough"
    lens = [(0, 1, 2, 5), (40,)] + ([(3, 4, 8, 16), (100,), (64, 65), (200,), (257,)] if deep else [])

    def ecc(nm, props, fn, arg=None, weight=1, mod="ecc"):
        out.append(Task(nm, props, lazy(mod, fn), arg, weight, "none", 1500 if deep else 400))
    ecc("crc32_nand", "C28 C33", "run_crc")
    ecc("hamming", "C29 C33", "run_ham", weight=2)
    for t in (1, 2, 3, 4):
        ecc("bch_%dbit" % t, "C30 C33 C43", "run_bch", t)
        ecc("bch_%dbit locator" % t, "C32 C33 C43", "run_bm", t)
        for l in lens + ([(100,), (257,)] if t == 2 and not deep else []):
            ecc("bch_%dbit repair %s" % (t, l), "C32 C33 C43", "run_repair", (t, l), 2 + len(l) + max(l) // 10)
    ecc("gf13 tables", "C31 C33 C43", "run_gf_tables", mod="small")
    ecc("gf13 without tables", "C31 C43", "run_gf_plain", mod="small")
    ecc("dhara_strerror", "C27", "run_strerror", mod="small")
    ecc("whole library", "C17", "run_structure", mod="small")
    ecc("table generator", "C34", "run_gentab", mod="small")
    return out


def preload(ts):
    """compile and parse what the tasks share, before forking"""
    import rj
    if any(t.uses == "lib" for t in ts):
        rj.lib()


# ---------------------------------------------------------------------------
def guard(t, want):
    """run one task; a failure of the analysis is reported, not raised"""
    t0 = time.time()
    try:
        r = t.fn(t.arg, want)
        r["error"] = None
    except AnalysisBroken as e:
        r = dict(out=[], notes=[], functions=[], callsites=0, steps=0, loops=0, error="broken: %s" % e, broken=True)
    except Exception as e:
        r = dict(out=[], notes=[], functions=[], callsites=0, steps=0, loops=0,
                 error="%s: %s at %s" % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-3:]))
    r["name"] = t.name
    r["wall"] = time.time() - t0
    return r
