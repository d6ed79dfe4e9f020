"""Front end: compile a /repo translation unit to LLVM IR with clang (type
checked, real include paths, no optimisation beyond promotion of scalar locals
to SSA registers) and parse the textual IR into a small object model.

Nothing of /repo is executed: clang is used as a parser/type checker only.
"""
import os, re, subprocess, sys, tempfile, hashlib

REPO = os.environ.get("VERIF_REPO", "/repo")


class AnalysisBroken(Exception):
    """The analysis cannot be carried out (missing anchor, unsupported IR)."""


# --------------------------------------------------------------------------
# types
class Ty:
    __slots__ = ("k", "w", "n", "e", "fs", "name")

    def __init__(s, k, w=0, n=0, e=None, fs=None, name=None):
        s.k, s.w, s.n, s.e, s.fs, s.name = k, w, n, e, fs, name

    def __repr__(s):
        return {"int": "i%d" % s.w, "ptr": "ptr", "void": "void"}.get(s.k, s.name or s.k)


VOID = Ty("void")
PTR = Ty("ptr", 64)
_ints = {}


def INT(w):
    if w not in _ints:
        _ints[w] = Ty("int", w)
    return _ints[w]


class Instr:
    __slots__ = ("op", "res", "ty", "ops", "extra", "dbg", "block")

    def __init__(s, op, res, ty, ops, extra=None, dbg=None):
        s.op, s.res, s.ty, s.ops, s.extra, s.dbg = op, res, ty, ops, extra, dbg

    def __repr__(s):
        return "%s=%s %r %r" % (s.res, s.op, s.ops, s.extra)


class Block:
    __slots__ = ("name", "ins", "succ", "pred")

    def __init__(s, name):
        s.name, s.ins, s.succ, s.pred = name, [], [], []


class Func:
    def __init__(s, name, rty, params, internal):
        s.name, s.rty, s.params, s.internal = name, rty, params, internal
        s.blocks = {}
        s.order = []
        s.dbg = None
        s._ana = None


class Glob:
    def __init__(s, name, ty, const, init, linkage, raw):
        s.name, s.ty, s.const, s.init, s.linkage, s.raw = name, ty, const, init, linkage, raw


# --------------------------------------------------------------------------
TOK = re.compile(r'''\s*(?:
 (?P<str>c?"(?:[^"\\]|\\.)*")
|(?P<loc>%(?:"[^"]*"|[-\w.$]+))
|(?P<glo>@(?:"[^"]*"|[-\w.$]+))
|(?P<md>!(?:[-\w.$]+)?)
|(?P<num>-?\d+(?![\w.]))
|(?P<word>[-\w.$]+)
|(?P<p>\.\.\.|[\[\]{}()<>,=*:|#])
)''', re.X)


def toks(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == "":
                break
            raise AnalysisBroken("cannot tokenise IR: " + s[i:i + 60])
        out.append(m.group(m.lastgroup))
        i = m.end()
    return out


class P:
    """token cursor"""

    def __init__(s, t, mod):
        s.t, s.i, s.m = t, 0, mod

    def peek(s):
        return s.t[s.i] if s.i < len(s.t) else None

    def next(s):
        v = s.t[s.i]
        s.i += 1
        return v

    def acc(s, v):
        if s.peek() == v:
            s.i += 1
            return True
        return False

    def exp(s, v):
        if not s.acc(v):
            raise AnalysisBroken("IR parse: expected %r in %r at %d" % (v, s.t, s.i))

    def type(s):
        v = s.next()
        if v == "void":
            t = VOID
        elif v == "ptr":
            t = PTR
        elif re.fullmatch(r"i\d+", v):
            t = INT(int(v[1:]))
        elif v == "[":
            n = int(s.next())
            s.exp("x")
            e = s.type()
            s.exp("]")
            t = Ty("arr", 0, n, e)
        elif v == "{":
            fs = []
            if not s.acc("}"):
                while True:
                    fs.append(s.type())
                    if s.acc("}"):
                        break
                    s.exp(",")
            t = Ty("struct", fs=fs)
        elif v == "<":
            raise AnalysisBroken("vector/packed type in IR")
        elif v.startswith("%"):
            t = s.m.types.get(v)
            if t is None:
                t = s.m.types[v] = Ty("struct", fs=None, name=v)
        elif v in ("metadata", "label", "token", "opaque"):
            t = Ty(v)
        elif v in ("double", "float", "x86_fp80"):
            t = Ty("fp", {"double": 64, "float": 32, "x86_fp80": 80}[v])
        else:
            raise AnalysisBroken("unknown IR type %r in %r" % (v, s.t))
        return t

    def attrs(s):
        while s.peek() in ATTR or (s.peek() or "").startswith("align") and s.peek() == "align":
            v = s.next()
            if v in ("align", "dereferenceable", "dereferenceable_or_null", "range"):
                if s.acc("("):
                    while not s.acc(")"):
                        s.next()
                else:
                    s.next()

    def value(s, ty):
        v = s.next()
        if v.startswith("%"):
            return ("l", v)
        if v == "getelementptr":
            s.acc("inbounds")
            s.exp("(")
            et = s.type()
            s.exp(",")
            s.type()
            b = s.value(PTR)
            idx = []
            while s.acc(","):
                s.acc("inrange")
                it = s.type()
                idx.append((it, s.value(it)))
            s.exp(")")
            return ("cgep", et, b, idx)
        if v.startswith("@"):
            return ("g", v[1:])
        if re.fullmatch(r"-?\d+", v):
            return ("c", int(v))
        if v == "true":
            return ("c", 1)
        if v == "false":
            return ("c", 0)
        if v == "null":
            return ("c", 0)
        if v in ("undef", "poison"):
            return ("u",)
        if v == "zeroinitializer":
            return ("z",)
        if v == "[":
            el = []
            if not s.acc("]"):
                while True:
                    t = s.type()
                    el.append(s.value(t))
                    if s.acc("]"):
                        break
                    s.exp(",")
            return ("agg", el)
        if v == "{":
            el = []
            if not s.acc("}"):
                while True:
                    t = s.type()
                    el.append(s.value(t))
                    if s.acc("}"):
                        break
                    s.exp(",")
            return ("agg", el)
        if v.startswith('c"'):
            body = v[2:-1]
            out = []
            i = 0
            while i < len(body):
                if body[i] == "\\":
                    out.append(int(body[i + 1:i + 3], 16))
                    i += 3
                else:
                    out.append(ord(body[i]))
                    i += 1
            return ("agg", [("c", b) for b in out])
        if v == "inttoptr" or v in ("ptrtoint", "trunc", "zext", "bitcast", "sub", "add"):
            raise AnalysisBroken("constant expression %s" % v)
        raise AnalysisBroken("IR value %r in %r" % (v, s.t))


ATTR = set("""noundef zeroext signext nonnull noalias nocapture readonly writeonly readnone nofree
returned immarg align dereferenceable dereferenceable_or_null inreg noreturn nounwind mustprogress
dso_local local_unnamed_addr unnamed_addr internal private external linkonce_odr weak hidden common
fastcc ccc tail musttail notail nsw nuw exact inbounds disjoint samesign nneg captures""".split())


class Module:
    def __init__(s, path, text, args):
        s.path, s.args = path, args
        s.types, s.funcs, s.globs, s.md = {}, {}, {}, {}
        s.decls = set()
        s.asm = False
        s.parse(text)

    # -- metadata -----------------------------------------------------------
    def mdget(s, ref):
        return s.md.get(ref)

    @staticmethod
    def mdfield(txt, f):
        m = re.search(r"\b" + f + r": (\"[^\"]*\"|![0-9]+|[-\w]+)", txt or "")
        if not m:
            return None
        v = m.group(1)
        return v[1:-1] if v.startswith('"') else v

    def loc(s, dbg):
        """(file, line) for a !dbg reference"""
        t = s.md.get(dbg)
        if not t or "DILocation" not in t:
            return (os.path.basename(s.path), 0)
        line = int(s.mdfield(t, "line") or 0)
        sc = s.mdfield(t, "scope")
        fn = s.path
        for _ in range(20):
            st = s.md.get(sc)
            if not st:
                break
            f = s.mdfield(st, "file")
            if f:
                ft = s.md.get(f)
                fn = s.mdfield(ft, "filename") or fn
                break
            sc = s.mdfield(st, "scope")
        return (os.path.basename(fn), line)

    def struct_fields(s, cname):
        """field name -> (byte offset, size in bytes) from debug info"""
        for k, t in s.md.items():
            if "DICompositeType" in t and "DW_TAG_structure_type" in t and s.mdfield(t, "name") == cname and "elements:" in t:
                el = s.md.get(s.mdfield(t, "elements"))
                out = {}
                for r in re.findall(r"![0-9]+", el):
                    e = s.md.get(r)
                    out[s.mdfield(e, "name")] = (int(s.mdfield(e, "offset") or 0) // 8, int(s.mdfield(e, "size") or 0) // 8)
                return out
        return None

    def enums(s):
        out = {}
        for t in s.md.values():
            if t.startswith("!DIEnumerator("):
                out[s.mdfield(t, "name")] = int(s.mdfield(t, "value"))
        return out

    # -- layout ---------------------------------------------------------------
    def align(s, t):
        if t.k == "int":
            return max(1, min(8, t.w // 8))
        if t.k == "ptr":
            return 8
        if t.k == "arr":
            return s.align(t.e)
        if t.k == "struct":
            return max([s.align(f) for f in t.fs] or [1])
        if t.k == "fp":
            return 16 if t.w == 80 else t.w // 8
        raise AnalysisBroken("align of %r" % t)

    def size(s, t):
        if t.k == "int":
            return max(1, t.w // 8)
        if t.k == "ptr":
            return 8
        if t.k == "arr":
            return t.n * s.size(t.e)
        if t.k == "struct":
            o = 0
            for f in t.fs:
                a = s.align(f)
                o = (o + a - 1) // a * a + s.size(f)
            a = s.align(t)
            return (o + a - 1) // a * a
        if t.k == "fp":
            return 16 if t.w == 80 else t.w // 8
        raise AnalysisBroken("size of %r" % t)

    def field_off(s, t, i):
        o = 0
        for k, f in enumerate(t.fs):
            a = s.align(f)
            o = (o + a - 1) // a * a
            if k == i:
                return o
            o += s.size(f)
        raise AnalysisBroken("field index")

    # -- parsing ----------------------------------------------------------------
    def parse(s, text):
        lines = text.split("\n")
        i = 0
        while i < len(lines):
            L = lines[i]
            i += 1
            if not L or L[0] == ";":
                continue
            if L[0] == "!":
                m = re.match(r"(![\w.]+) = (?:distinct )?(.*)$", L)
                if m:
                    s.md[m.group(1)] = m.group(2)
                continue
            if L[0] == "%":
                m = re.match(r"(%[\w.\"]+) = type (.*)$", L)
                if m:
                    p = P(toks(m.group(2)), s)
                    if m.group(2).startswith("opaque"):
                        continue
                    t = p.type()
                    old = s.types.get(m.group(1))
                    if old is not None:
                        old.fs = t.fs
                    else:
                        t.name = m.group(1)
                        s.types[m.group(1)] = t
                continue
            if L[0] == "@":
                s.glob(L)
                continue
            if L.startswith("module asm"):
                s.asm = True
                continue
            if L.startswith("declare"):
                m = re.search(r"@([\w.$]+)\(", L)
                s.decls.add(m.group(1))
                continue
            if L.startswith("define"):
                body = []
                while lines[i] != "}":
                    body.append(lines[i])
                    i += 1
                i += 1
                s.func(L, body)

    def glob(s, L):
        m = re.match(r"@([\w.$]+) = (.*)$", L)
        name, rest = m.group(1), m.group(2)
        dbg = re.search(r", !dbg (![0-9]+)", rest)
        core = re.sub(r", (?:!dbg ![0-9]+|align \d+|section \"[^\"]*\")", "", rest)
        words = core.split()
        link = []
        k = 0
        while words[k] not in ("global", "constant"):
            link.append(words[k])
            k += 1
            if k >= len(words):
                return
        const = words[k] == "constant"
        rem = " ".join(words[k + 1:])
        # large arrays: fast path
        m2 = re.match(r"\[(\d+) x i(\d+)\] \[(.*)\]$", rem)
        if m2:
            vals = [int(x) for x in re.findall(r"i%s (-?\d+)" % m2.group(2), m2.group(3))]
            if len(vals) == int(m2.group(1)):
                s.globs[name] = Glob(name, Ty("arr", 0, len(vals), INT(int(m2.group(2)))), const,
                                     ("agg", [("c", v) for v in vals]), link, L)
                return
        p = P(toks(rem), s)
        t = p.type()
        init = None
        if p.peek() is not None and p.peek() != ",":
            try:
                init = p.value(t)
            except AnalysisBroken:
                init = ("unk",)
        s.globs[name] = Glob(name, t, const, init, link, L)

    def func(s, L, body):
        m = re.match(r"define (.*?)@([\w.$]+)\((.*)\)([^)]*)\{$", L)
        pre, name, ps, post = m.groups()
        # attribute parens inside params are matched greedily; tokenise
        t = P(toks(pre), s)
        internal = "internal" in t.t
        t.attrs()
        rty = t.type()
        params = []
        p = P(toks(ps), s)
        while p.peek() is not None:
            if p.acc("..."):
                break
            ty = p.type()
            p.attrs()
            params.append((p.next(), ty))
            p.acc(",")
        f = Func(name, rty, params, internal)
        d = re.search(r"!dbg (![0-9]+)", post)
        f.dbg = d.group(1) if d else None
        cur = None
        k = 0
        while k < len(body):
            B = body[k]
            k += 1
            if not B.strip() or B.lstrip().startswith(";"):
                continue
            mm = re.match(r'("?[-\w.$]+"?):', B)
            if mm:
                cur = Block("%" + mm.group(1).strip('"'))
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
                continue
            if cur is None:
                cur = Block("%entry0")
                f.blocks[cur.name] = cur
                f.order.append(cur.name)
            if re.match(r"\s*switch ", B):
                while "]" not in B:
                    B += " " + body[k].strip()
                    k += 1
            ins = s.instr(B.strip())
            if ins is not None:
                ins.block = cur.name
                cur.ins.append(ins)
        for b in f.blocks.values():
            tm = b.ins[-1] if b.ins else None
            if tm is None:
                raise AnalysisBroken("empty block")
            if tm.op == "br":
                b.succ = [tm.extra]
            elif tm.op == "cbr":
                b.succ = list(tm.extra)
            elif tm.op == "switch":
                b.succ = [tm.extra[0]] + [x[1] for x in tm.extra[1]]
        for b in f.blocks.values():
            for x in b.succ:
                f.blocks[x].pred.append(b.name)
        s.funcs[name] = f

    def instr(s, L):
        dbg = None
        m = re.search(r", !dbg (![0-9]+)", L)
        if m:
            dbg = m.group(1)
        core = re.sub(r", ![\w.]+ ![0-9]+", "", L)
        core = re.sub(r"\s+;.*$", "", core)
        core = re.sub(r" #\d+\b", "", core)
        if "@llvm.dbg." in core:
            return None
        res = None
        m = re.match(r'(%(?:"[^"]*"|[-\w.$]+)) = (.*)$', core)
        if m:
            res, core = m.group(1), m.group(2)
        p = P(toks(core), s)
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "alloca":
            t = p.type()
            n = None
            if p.acc(",") and p.peek() != "align":
                it = p.type()
                n = p.value(it)
            return Instr("alloca", res, t, [], n, dbg)
        if op == "load":
            vol = p.acc("volatile")
            p.acc("atomic")
            t = p.type()
            p.exp(",")
            p.type()
            return Instr("load", res, t, [p.value(PTR)], vol, dbg)
        if op == "store":
            vol = p.acc("volatile")
            t = p.type()
            v = p.value(t)
            p.exp(",")
            p.type()
            return Instr("store", None, t, [v, p.value(PTR)], vol, dbg)
        if op == "getelementptr":
            p.acc("inbounds")
            et = p.type()
            p.exp(",")
            p.type()
            b = p.value(PTR)
            idx = []
            while p.acc(","):
                it = p.type()
                idx.append((it, p.value(it)))
            return Instr("gep", res, PTR, [b], (et, idx), dbg)
        if op in ("add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "and", "or", "xor", "shl", "lshr", "ashr"):
            p.attrs()
            t = p.type()
            a = p.value(t)
            p.exp(",")
            return Instr("bin", res, t, [a, p.value(t)], op, dbg)
        if op == "icmp":
            p.attrs()
            pr = p.next()
            t = p.type()
            a = p.value(t)
            p.exp(",")
            return Instr("icmp", res, t, [a, p.value(t)], pr, dbg)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
            p.attrs()
            t = p.type()
            a = p.value(t)
            p.exp("to")
            return Instr(op, res, p.type(), [a], t, dbg)
        if op == "select":
            p.type()
            c = p.value(INT(1))
            p.exp(",")
            t = p.type()
            a = p.value(t)
            p.exp(",")
            p.type()
            return Instr("select", res, t, [c, a, p.value(t)], None, dbg)
        if op == "freeze":
            t = p.type()
            return Instr("freeze", res, t, [p.value(t)], None, dbg)
        if op == "phi":
            t = p.type()
            inc = []
            while True:
                p.exp("[")
                v = p.value(t)
                p.exp(",")
                bl = p.next()
                p.exp("]")
                inc.append((v, bl.replace('"', "")))
                if not p.acc(","):
                    break
            return Instr("phi", res, t, [], inc, dbg)
        if op == "br":
            if p.acc("label"):
                return Instr("br", None, VOID, [], p.next().replace('"', ""), dbg)
            p.type()
            c = p.value(INT(1))
            p.exp(",")
            p.exp("label")
            a = p.next().replace('"', "")
            p.exp(",")
            p.exp("label")
            b = p.next().replace('"', "")
            if a == b:
                return Instr("br", None, VOID, [], a, dbg)
            return Instr("cbr", None, VOID, [c], (a, b), dbg)
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.exp(",")
            p.exp("label")
            d = p.next().replace('"', "")
            p.exp("[")
            cs = []
            while not p.acc("]"):
                p.type()
                c = p.value(t)
                p.exp(",")
                p.exp("label")
                cs.append((c[1], p.next().replace('"', "")))
            return Instr("switch", None, t, [v], (d, cs), dbg)
        if op == "ret":
            t = p.type()
            return Instr("ret", None, t, [p.value(t)] if t.k != "void" else [], None, dbg)
        if op == "unreachable":
            return Instr("unreachable", None, VOID, [], None, dbg)
        if op == "call":
            p.attrs()
            t = p.type()
            # function type for varargs
            if p.acc("("):
                while not p.acc(")"):
                    p.next()
            c = p.next()
            p.exp("(")
            args = []
            tys = []
            while not p.acc(")"):
                at = p.type()
                if at.k == "metadata":
                    return None
                p.attrs()
                args.append(p.value(at))
                tys.append(at)
                p.acc(",")
            return Instr("call", res, t, args, (c[1:] if c.startswith("@") else None, tys, c), dbg)
        raise AnalysisBroken("unsupported IR instruction: " + L)


def compile_ir(src, extra=(), mem2reg=True, repo=None, passes="mem2reg"):
    repo = repo or REPO
    path = os.path.join(repo, src)
    if not os.path.exists(path):
        raise AnalysisBroken("missing source file " + src)
    cmd = ["clang-18", "-O0", "-g", "-Xclang", "-disable-O0-optnone", "-fno-discard-value-names", "-w",
           "-std=gnu17", "-S", "-emit-llvm", "-I" + repo, *extra, src, "-o", "-"]
    r = subprocess.run(cmd, cwd=repo, capture_output=True, text=True)
    if r.returncode != 0:
        raise AnalysisBroken("clang failed on %s: %s" % (src, r.stderr[-2000:]))
    txt = r.stdout
    if mem2reg:
        r = subprocess.run(["opt-18", "-passes=" + passes, "-S", "-o", "-"], input=txt, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("opt failed on %s: %s" % (src, r.stderr[-2000:]))
        txt = r.stdout
    return txt


def load(src, extra=(), repo=None, passes="mem2reg"):
    return Module(os.path.join(repo or REPO, src), compile_ir(src, extra, repo=repo, passes=passes), extra)


LIB = ("dhara",)


def lib_sources(repo=None, dirs=LIB):
    """library translation units, as the build's wildcard-free object list
    names them: every .c file of the library directories"""
    repo = repo or REPO
    out = []
    for d in dirs:
        for f in sorted(os.listdir(os.path.join(repo, d))):
            if f.endswith(".c"):
                out.append(d + "/" + f)
    return out


def load_lib(srcs, extra=(), repo=None, passes="mem2reg"):
    """link several translation units into one module"""
    import tempfile
    import shutil
    if len(srcs) == 1:
        return load(srcs[0], extra, repo, passes)
    d = tempfile.mkdtemp(prefix="vf_ir_")
    try:
        ps = []
        for i, f in enumerate(srcs):
            p = os.path.join(d, "%d.ll" % i)
            with open(p, "w") as fh:
                fh.write(compile_ir(f, extra, repo=repo, passes=passes))
            ps.append(p)
        r = subprocess.run(["llvm-link-18", "-S", "-o", "-"] + ps, capture_output=True, text=True)
        if r.returncode != 0:
            raise AnalysisBroken("llvm-link failed: " + r.stderr[-2000:])
        return Module(os.path.join(repo or REPO, srcs[0]), r.stdout, extra)
    finally:
        shutil.rmtree(d, ignore_errors=True)


# --------------------------------------------------------------------------
# CFG analyses
class CFG:
    def __init__(s, f):
        s.f = f
        bl = f.blocks
        entry = f.order[0]
        # reachable, rpo
        seen, rpo = set(), []
        st = [(entry, iter(bl[entry].succ))]
        seen.add(entry)
        while st:
            b, it = st[-1]
            adv = False
            for x in it:
                if x not in seen:
                    seen.add(x)
                    st.append((x, iter(bl[x].succ)))
                    adv = True
                    break
            if not adv:
                rpo.append(b)
                st.pop()
        rpo.reverse()
        s.rpo = rpo
        s.reach = seen
        s.idom = s._dom(rpo, {b: [p for p in bl[b].pred if p in seen] for b in rpo}, entry)
        # post dominators with virtual exit
        EX = "%__exit"
        succ = {b: list(bl[b].succ) for b in rpo}
        for b in rpo:
            if not succ[b]:
                succ[b] = [EX]
        # infinite loops: connect? handled by leaving blocks w/o ipdom
        pred = {b: [] for b in rpo}
        pred[EX] = []
        for b in rpo:
            for x in succ[b]:
                pred[x].append(b)
        seen2, po = set([EX]), []
        st = [(EX, iter(pred[EX]))]
        while st:
            b, it = st[-1]
            adv = False
            for x in it:
                if x not in seen2:
                    seen2.add(x)
                    st.append((x, iter(pred[x])))
                    adv = True
                    break
            if not adv:
                po.append(b)
                st.pop()
        po.reverse()
        s.ipdom = s._dom(po, {b: [x for x in (succ.get(b) or []) if x in seen2] for b in po}, EX)
        s.ipdom = {k: (None if v == EX else v) for k, v in s.ipdom.items()}
        # natural loops
        s.loops = {}
        for b in rpo:
            for x in bl[b].succ:
                if s.dominates(x, b):
                    body = s.loops.setdefault(x, set([x]))
                    w = [b]
                    while w:
                        y = w.pop()
                        if y in body:
                            continue
                        body.add(y)
                        w.extend(p for p in bl[y].pred if p in seen)
        # irreducibility check
        pos = {b: i for i, b in enumerate(rpo)}
        for b in rpo:
            for x in bl[b].succ:
                if pos[x] <= pos[b] and not s.dominates(x, b):
                    raise AnalysisBroken("irreducible control flow in " + f.name)

    def _dom(s, rpo, preds, entry):
        pos = {b: i for i, b in enumerate(rpo)}
        idom = {entry: entry}
        ch = True
        while ch:
            ch = False
            for b in rpo:
                if b == entry:
                    continue
                new = None
                for p in preds[b]:
                    if p in idom:
                        if new is None:
                            new = p
                        else:
                            x, y = p, new
                            while x != y:
                                while pos[x] > pos[y]:
                                    x = idom[x]
                                while pos[y] > pos[x]:
                                    y = idom[y]
                            new = x
                if new is not None and idom.get(b) != new:
                    idom[b] = new
                    ch = True
        idom[entry] = None
        return idom

    def dominates(s, a, b):
        while b is not None:
            if a == b:
                return True
            b = s.idom[b]
        return False


def cfg(f):
    if f._ana is None:
        f._ana = CFG(f)
    return f._ana
