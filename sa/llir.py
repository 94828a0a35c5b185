"""LLVM IR front end: compile a C unit of /repo with clang (the build's own defines), promote
locals to SSA with opt, and parse the textual IR into a small object model.

The IR is the *resolved program*: macros are expanded, callees are resolved, struct field accesses
are typed GEPs, every instruction carries file:line from the debug info.
"""
import os, re, subprocess, hashlib, json, shutil, tempfile

REPO = os.environ.get("SA_REPO", "/repo")


class Violation(Exception):
    """a definite violation met while interpreting"""


class AnalysisBroken(Exception):
    """The analyser cannot find what it is supposed to analyse (an error of the check)."""


# ----------------------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "sub", "name", "fields", "packed")

    def __init__(self, k, n=0, sub=None, name=None, fields=None, packed=False):
        self.k, self.n, self.sub, self.name, self.fields, self.packed = k, n, sub, name, fields, packed

    def __repr__(self):
        if self.k == "i": return f"i{self.n}"
        if self.k == "arr": return f"[{self.n} x {self.sub}]"
        if self.k == "named": return "%" + self.name
        return self.k


class Inst:
    __slots__ = ("op", "res", "ty", "args", "x", "dbg", "blk", "fn", "raw", "idx")

    def __init__(self, op, res, ty, args, x=None):
        self.op, self.res, self.ty, self.args, self.x = op, res, ty, args, x
        self.dbg = None; self.blk = None; self.fn = None; self.raw = None; self.idx = 0

    def __repr__(self):
        return f"<{self.op} {self.res} {self.args} {self.x}>"


class Block:
    __slots__ = ("name", "insts", "preds", "succs")

    def __init__(self, name):
        self.name, self.insts, self.preds, self.succs = name, [], [], []


class Func:
    def __init__(self, name):
        self.name = name; self.params = []; self.blocks = {}; self.order = []
        self.linkage = ""; self.ret = None; self.module = None; self.dbg = None; self.attrs = ""

    def insts(self):
        for b in self.order:
            for i in self.blocks[b].insts:
                yield i


class Module:
    def __init__(self):
        self.types = {}; self.funcs = {}; self.globals = {}; self.decls = {}; self.md = {}; self.path = None


# value operands: ('r', name) register, ('c', int), ('null',), ('g', name), ('undef',), ('ce', expr-Inst),
# ('agg', [vals]), ('str', bytes), ('zero',), ('f', text), ('md', text)

TOK = re.compile(r'''
    (?P<str>c?"(?:[^"\\]|\\.)*")
  | (?P<md>!(?:[A-Za-z_][\w.]*|\d+|"(?:[^"\\]|\\.)*")?)
  | (?P<reg>%(?:"(?:[^"\\]|\\.)*"|[\w.$-]+))
  | (?P<glob>@(?:"(?:[^"\\]|\\.)*"|[\w.$-]+))
  | (?P<attr>\#\d+)
  | (?P<dots>\.\.\.)
  | (?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?(?![\w]))
  | (?P<hexf>0x[A-Za-z]?[0-9A-Fa-f]+)
  | (?P<word>[A-Za-z_][\w.]*)
  | (?P<p>[()\[\]{}<>,=*:|])
''', re.X)


def tokenize(s):
    out = []; pos = 0; n = len(s)
    while pos < n:
        c = s[pos]
        if c in " \t\r\n":
            pos += 1; continue
        if c == ";":
            j = s.find("\n", pos)
            if j < 0: break
            pos = j; continue
        m = TOK.match(s, pos)
        if not m:
            raise AnalysisBroken("IR token: " + s[pos:pos + 60])
        out.append(m.group(0)); pos = m.end()
    return out


def unq(t):
    t = t[1:]
    if t.startswith('"'): t = t[1:-1]
    return t


ATTR_WORDS = set("""noundef nonnull signext zeroext inreg byval sret noalias nocapture readonly writeonly returned
 align dereferenceable dereferenceable_or_null immarg nofree nosync noreturn nounwind dso_local local_unnamed_addr
 unnamed_addr internal private external common available_externally linkonce_odr weak hidden protected default
 tail musttail notail fastcc ccc nest swiftself readnone willreturn mustprogress allocalign allocptr captures range writable dead_on_unwind initializes nofpclass allocsize""".split())

CASTS = {"trunc", "zext", "sext", "bitcast", "ptrtoint", "inttoptr", "fptrunc", "fpext", "fptoui", "fptosi", "uitofp", "sitofp", "addrspacecast"}
BINOPS = {"add", "sub", "mul", "udiv", "sdiv", "urem", "srem", "shl", "lshr", "ashr", "and", "or", "xor", "fadd", "fsub", "fmul", "fdiv", "frem"}
FLAGS = {"nsw", "nuw", "exact", "inbounds", "fast", "nnan", "ninf", "nsz", "arcp", "contract", "afn", "reassoc", "disjoint", "nneg", "volatile", "atomic", "nusw", "samesign"}


class P:
    """Recursive-descent parser over one token list."""

    def __init__(self, toks, mod):
        self.t = toks; self.i = 0; self.m = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]; self.i += 1; return v

    def acc(self, x):
        if self.peek() == x:
            self.i += 1; return True
        return False

    def exp(self, x):
        if self.peek() != x:
            raise AnalysisBroken(f"IR parse: expected {x!r} got {self.t[max(0,self.i-6):self.i+6]}")
        self.i += 1

    def skip_parens(self):
        self.exp("("); d = 1
        while d:
            v = self.next()
            if v == "(": d += 1
            elif v == ")": d -= 1

    def ty(self):
        v = self.next()
        if v == "void": t = Ty("void")
        elif v == "ptr": t = Ty("ptr")
        elif v == "label": t = Ty("label")
        elif v == "metadata": t = Ty("metadata")
        elif v in ("float", "double", "x86_fp80", "half", "fp128"): t = Ty("fp", {"float": 32, "double": 64}.get(v, 128))
        elif re.match(r"i\d+$", v): t = Ty("i", int(v[1:]))
        elif v == "[":
            n = int(self.next()); self.exp("x"); s = self.ty(); self.exp("]"); t = Ty("arr", n, s)
        elif v == "{":
            f = []
            while not self.acc("}"):
                f.append(self.ty()); self.acc(",")
            t = Ty("struct", fields=f)
        elif v == "<":
            if self.peek() == "{":
                self.next(); f = []
                while not self.acc("}"):
                    f.append(self.ty()); self.acc(",")
                self.exp(">"); t = Ty("struct", fields=f, packed=True)
            else:
                n = int(self.next()); self.exp("x"); s = self.ty(); self.exp(">"); t = Ty("vec", n, s)
        elif v.startswith("%"): t = Ty("named", name=unq(v))
        elif v == "opaque": t = Ty("opaque")
        else: raise AnalysisBroken(f"IR type {v!r} in {self.t[max(0,self.i-8):self.i+8]}")
        if self.peek() == "(":   # function type
            d = self.i; self.skip_parens(); t = Ty("fn", sub=t)
        return t

    def attrs(self):
        while True:
            p = self.peek()
            if p in ATTR_WORDS:
                self.i += 1
                if p == "align" and self.peek() and re.match(r"\d+$", self.peek()): self.i += 1
                elif self.peek() == "(" and p in ("dereferenceable", "dereferenceable_or_null", "byval", "sret", "align", "captures", "range", "initializes", "nofpclass", "allocsize"):
                    self.skip_parens()
            elif p and p.startswith("#"): self.i += 1
            elif p and p.startswith('"'):
                self.i += 1
                if self.acc("="): self.i += 1
            else: return

    def val(self, t):
        """constant or register operand of type t"""
        p = self.peek()
        if p.startswith("%"): self.i += 1; return ("r", unq(p))
        if p.startswith("@"): self.i += 1; return ("g", unq(p))
        if re.match(r"-?\d+$", p):
            self.i += 1; return ("c", int(p))
        if re.match(r"-?\d+\.", p) or p.startswith("0x"):
            self.i += 1; return ("f", p)
        if p == "true": self.i += 1; return ("c", 1)
        if p == "false": self.i += 1; return ("c", 0)
        if p == "null": self.i += 1; return ("null",)
        if p in ("undef", "poison"): self.i += 1; return ("undef",)
        if p == "zeroinitializer": self.i += 1; return ("zero",)
        if p.startswith('c"'):
            self.i += 1
            body = p[2:-1]; out = bytearray(); i = 0
            while i < len(body):
                if body[i] == "\\":
                    if body[i + 1] == "\\": out.append(92); i += 2
                    else: out.append(int(body[i + 1:i + 3], 16)); i += 3
                else: out.append(ord(body[i])); i += 1
            return ("str", bytes(out))
        if p == "[" or p == "{" or (p == "<"):
            close = {"[": "]", "{": "}", "<": ">"}[p]
            self.i += 1
            if p == "<" and self.peek() == "{":
                self.next(); close = "}"
                vs = []
                while not self.acc(close):
                    et = self.ty(); vs.append((et, self.val(et))); self.acc(",")
                self.exp(">"); return ("agg", vs)
            vs = []
            while not self.acc(close):
                et = self.ty(); vs.append((et, self.val(et))); self.acc(",")
            return ("agg", vs)
        if p == "getelementptr":
            self.i += 1
            while self.peek() in FLAGS or (self.peek() == "inrange"): 
                self.i += 1
                if self.peek() == "(" and self.t[self.i-1] == "inrange": self.skip_parens()
            self.exp("("); st = self.ty(); ops = []
            while self.acc(","):
                self.acc("inrange")
                ot = self.ty(); ops.append((ot, self.val(ot)))
            self.exp(")")
            return ("ce", Inst("getelementptr", None, Ty("ptr"), ops, {"sty": st}))
        if p in CASTS:
            self.i += 1; self.exp("("); st = self.ty(); v = self.val(st)
            self.exp("to"); dt = self.ty(); self.exp(")")
            return ("ce", Inst("cast", None, dt, [(st, v)], {"cast": p}))
        if p in BINOPS:
            self.i += 1
            while self.peek() in FLAGS: self.i += 1
            self.exp("("); t1 = self.ty(); a = self.val(t1); self.exp(","); t2 = self.ty(); b = self.val(t2); self.exp(")")
            return ("ce", Inst("bin", None, t1, [(t1, a), (t2, b)], {"bop": p}))
        if p == "icmp":
            self.i += 1; pr = self.next(); self.exp("("); t1 = self.ty(); a = self.val(t1); self.exp(","); t2 = self.ty(); b = self.val(t2); self.exp(")")
            return ("ce", Inst("icmp", None, Ty("i", 1), [(t1, a), (t2, b)], {"pred": pr}))
        if t.k == "metadata" or p.startswith("!"):
            return self.mdval()
        if p == "asm":
            self.i += 1
            while self.peek() in ("sideeffect", "alignstack", "inteldialect", "unwind"): self.i += 1
            self.next(); self.exp(","); self.next()
            return ("asm",)
        if p == "blockaddress":
            self.i += 1; self.skip_parens(); return ("undef",)
        raise AnalysisBroken(f"IR value {p!r} in {self.t[max(0,self.i-8):self.i+8]}")

    def mdval(self):
        p = self.peek()
        if p and p.startswith("!"):
            self.i += 1
            if self.peek() == "(": self.skip_parens()
            elif self.peek() == "{":
                d = 0
                while True:
                    v = self.next()
                    if v == "{": d += 1
                    elif v == "}":
                        d -= 1
                        if d == 0: break
            return ("md", p)
        t = self.ty(); v = self.val(t)
        return ("mdv", t, v)

    def tyval(self):
        t = self.ty(); self.attrs(); return (t, self.val(t))


def parse_inst(toks, mod):
    p = P(toks, mod)
    res = None
    if p.peek().startswith("%") and p.peek(1) == "=":
        res = unq(p.next()); p.next()
    op = p.next()
    I = None
    if op in ("tail", "musttail", "notail"):
        op = p.next()
    if op == "alloca":
        p.acc("inalloca"); t = p.ty(); cnt = (Ty("i", 32), ("c", 1))
        if p.peek() == "," and p.peek(1) not in ("align", None) and not p.peek(1).startswith("!"):
            p.next(); cnt = p.tyval()
        I = Inst("alloca", res, Ty("ptr"), [cnt], {"aty": t})
    elif op == "load":
        while p.peek() in FLAGS: p.next()
        t = p.ty(); p.exp(","); a = p.tyval(); I = Inst("load", res, t, [a])
    elif op == "store":
        while p.peek() in FLAGS: p.next()
        v = p.tyval(); p.exp(","); a = p.tyval(); I = Inst("store", None, Ty("void"), [v, a])
    elif op == "getelementptr":
        while p.peek() in FLAGS: p.next()
        st = p.ty(); ops = []
        while p.peek() == "," and not p.peek(1).startswith("!"):
            p.next(); ops.append(p.tyval())
        I = Inst("getelementptr", res, Ty("ptr"), ops, {"sty": st})
    elif op in BINOPS:
        fl = []
        while p.peek() in FLAGS: fl.append(p.next())
        t = p.ty(); a = p.val(t); p.exp(","); b = p.val(t)
        I = Inst("bin", res, t, [(t, a), (t, b)], {"bop": op, "flags": fl})
    elif op == "fneg":
        while p.peek() in FLAGS: p.next()
        a = p.tyval(); I = Inst("other", res, a[0], [a], {"o": op})
    elif op in ("icmp", "fcmp"):
        while p.peek() in FLAGS: p.next()
        pr = p.next(); t = p.ty(); a = p.val(t); p.exp(","); b = p.val(t)
        I = Inst("icmp" if op == "icmp" else "other", res, Ty("i", 1), [(t, a), (t, b)], {"pred": pr, "o": op})
    elif op in CASTS:
        while p.peek() in FLAGS: p.next()
        a = p.tyval(); p.exp("to"); t = p.ty(); I = Inst("cast", res, t, [a], {"cast": op})
    elif op == "phi":
        while p.peek() in FLAGS: p.next()
        t = p.ty(); inc = []
        while True:
            p.exp("["); v = p.val(t); p.exp(","); b = unq(p.next()); p.exp("]")
            inc.append((b, v))
            if p.peek() == "," and p.peek(1) == "[": p.next()
            else: break
        I = Inst("phi", res, t, [(t, v) for _, v in inc], {"inc": inc})
    elif op == "select":
        while p.peek() in FLAGS: p.next()
        c = p.tyval(); p.exp(","); a = p.tyval(); p.exp(","); b = p.tyval()
        I = Inst("select", res, a[0], [c, a, b])
    elif op == "br":
        if p.peek() == "label":
            p.next(); I = Inst("br", None, Ty("void"), [], {"dst": [unq(p.next())]})
        else:
            c = p.tyval(); p.exp(","); p.exp("label"); a = unq(p.next()); p.exp(","); p.exp("label"); b = unq(p.next())
            I = Inst("br", None, Ty("void"), [c], {"dst": [a, b]})
    elif op == "switch":
        c = p.tyval(); p.exp(","); p.exp("label"); d = unq(p.next()); p.exp("["); cases = []
        while not p.acc("]"):
            t = p.ty(); v = p.val(t); p.exp(","); p.exp("label"); cases.append((v[1], unq(p.next())))
        I = Inst("switch", None, Ty("void"), [c], {"default": d, "cases": cases})
    elif op == "ret":
        if p.peek() == "void": p.next(); I = Inst("ret", None, Ty("void"), [])
        else: I = Inst("ret", None, Ty("void"), [p.tyval()])
    elif op == "unreachable":
        I = Inst("unreachable", None, Ty("void"), [])
    elif op == "call":
        while p.peek() in FLAGS: p.next()
        p.attrs()
        rt = p.ty()
        cal = p.val(rt)
        p.exp("("); args = []
        while not p.acc(")"):
            t = p.ty()
            if t.k == "metadata": args.append((t, p.mdval()))
            else:
                p.attrs(); args.append((t, p.val(t)))
            p.acc(",")
        if rt.k == "fn": rt = rt.sub
        I = Inst("call", res, rt, args, {"callee": cal})
    elif op in ("extractvalue", "insertvalue", "freeze", "fence", "cmpxchg", "atomicrmw", "va_arg", "extractelement", "insertelement", "shufflevector", "indirectbr"):
        I = Inst("other", res, Ty("i", 64), [], {"o": op})
    else:
        raise AnalysisBroken("IR inst " + op + " :: " + " ".join(toks[:20]))
    # dbg
    j = len(toks) - 1
    while j > 0:
        if toks[j - 1] == "!dbg":
            I.dbg = toks[j]; break
        j -= 1
    return I


MDRE = re.compile(r"^!(\d+) = (?:distinct )?(.*)$")


def parse_module(text):
    m = Module()
    lines = text.split("\n")
    i = 0; n = len(lines)
    rawglobals = []
    while i < n:
        L = lines[i]
        if L.startswith("%") and " = type " in L:
            nm, rest = L.split(" = type ", 1)
            m.types[unq(nm)] = P(tokenize(rest), m).ty()
        elif L.startswith("@"):
            rawglobals.append(L)
        elif L.startswith("declare"):
            mm = re.search(r"@([\w.$]+)\(", L)
            if mm: m.decls[mm.group(1)] = L
        elif L.startswith("define"):
            f = parse_def_header(L, m)
            i += 1; cur = None
            buf = []
            while lines[i] != "}":
                s = lines[i]
                if s and not s[0].isspace():
                    lm = re.match(r'("(?:[^"\\]|\\.)*"|[\w.$-]+):', s)
                    nm = lm.group(1).strip('"')
                    cur = Block(nm); f.blocks[nm] = cur; f.order.append(nm)
                elif s.strip() and not s.strip().startswith(";"):
                    st = s.strip()
                    if cur is None:
                        cur = Block("0"); f.blocks["0"] = cur; f.order.append("0")
                    if re.match(r"switch ", st):
                        while "]" not in st.split("[", 1)[-1]:
                            i += 1; st += " " + lines[i].strip()
                    I = parse_inst(tokenize(st), m)
                    I.blk = cur.name; I.fn = f; I.idx = len(cur.insts); cur.insts.append(I)
                i += 1
            # params entry block naming
            link_cfg(f)
            m.funcs[f.name] = f; f.module = m
        elif L.startswith("!"):
            mm = MDRE.match(L)
            if mm: m.md[mm.group(1)] = mm.group(2)
        i += 1
    for L in rawglobals:
        toks = tokenize(L); p = P(toks, m); nm = unq(p.next()); p.exp("=")
        link = []
        while p.peek() in ATTR_WORDS or p.peek() in ("thread_local", "externally_initialized", "extern_weak"):
            link.append(p.next())
            if p.peek() == "(": p.skip_parens()
        kind = p.next()
        if kind == "alias": continue
        t = p.ty(); init = None
        if p.peek() is not None and p.peek() != "," and p.peek() != "!" and not ("external" in link):
            init = p.val(t)
        m.globals[nm] = {"ty": t, "init": init, "const": kind == "constant", "link": link}
    return m


def parse_def_header(L, m):
    toks = tokenize(L); p = P(toks, m); p.next()
    link = []
    while p.peek() in ATTR_WORDS:
        w = p.next(); link.append(w)
        if w in ("align",): p.next()
    p.attrs()
    while p.peek() in ("dereferenceable",): p.next(); p.skip_parens()
    rt = p.ty(); name = unq(p.next()); f = Func(name); f.ret = rt; f.linkage = " ".join(link)
    p.exp("(")
    while not p.acc(")"):
        if p.peek() == "...": p.next(); continue
        t = p.ty(); p.attrs(); r = unq(p.next()); f.params.append((t, r)); p.acc(",")
    for j, t in enumerate(toks):
        if t == "!dbg": f.dbg = toks[j + 1]
    return f


def link_cfg(f):
    for b in f.order:
        t = f.blocks[b].insts[-1]
        if t.op == "br": s = t.x["dst"]
        elif t.op == "switch": s = [t.x["default"]] + [c[1] for c in t.x["cases"]]
        else: s = []
        seen = []
        for d in s:
            if d not in seen: seen.append(d)
        f.blocks[b].succs = seen
        for d in seen: f.blocks[d].preds.append(b)


# ----------------------------------------------------------------------------- layout
class Layout:
    def __init__(self, mod): self.m = mod; self.cache = {}

    def size(self, t):
        return self.sa(t)[0]

    def sa(self, t):
        if t.k == "i":
            b = max(1, (t.n + 7) // 8)
            s = 1
            while s < b: s *= 2
            return s, min(s, 16)
        if t.k == "ptr": return 8, 8
        if t.k == "fp":
            s = {32: 4, 64: 8}.get(t.n, 16); return s, s
        if t.k == "arr":
            s, a = self.sa(t.sub); return s * t.n, a
        if t.k == "vec":
            s, a = self.sa(t.sub); return s * t.n, s * t.n
        if t.k == "named":
            if t.name not in self.cache:
                if t.name not in self.m.types: return 0, 1
                self.cache[t.name] = self.sa(self.m.types[t.name])
            return self.cache[t.name]
        if t.k == "struct":
            off = 0; al = 1
            for f in t.fields:
                s, a = self.sa(f)
                if t.packed: a = 1
                off = (off + a - 1) // a * a + s; al = max(al, a)
            return (off + al - 1) // al * al, al
        return 0, 1

    def field_off(self, t, idx):
        if t.k == "named": t = self.m.types[t.name]
        off = 0
        for j, f in enumerate(t.fields):
            s, a = self.sa(f)
            if t.packed: a = 1
            off = (off + a - 1) // a * a
            if j == idx: return off, f
            off += s
        raise AnalysisBroken("field index")


# ----------------------------------------------------------------------------- debug locations
class Dbg:
    def __init__(self, mod):
        self.m = mod; self.cache = {}

    def node(self, ref):
        return self.m.md.get(ref.lstrip("!"))

    def loc(self, ref):
        """-> (file, line)"""
        if ref is None: return ("?", 0)
        if ref in self.cache: return self.cache[ref]
        s = self.node(ref) or ""
        mm = re.search(r"line: (\d+)", s); line = int(mm.group(1)) if mm else 0
        sc = re.search(r"scope: (!\d+)", s); fn = "?"
        cur = sc.group(1) if sc else None; d = 0
        if s.startswith("!DISubprogram"): cur = ref
        while cur and d < 50:
            ns = self.node(cur) or ""
            fm = re.search(r"file: (!\d+)", ns)
            if fm:
                f = self.node(fm.group(1)) or ""
                q = re.search(r'filename: "([^"]*)"', f)
                if q: fn = q.group(1)
                break
            sc = re.search(r"scope: (!\d+)", ns); cur = sc.group(1) if sc else None; d += 1
        r = (fn, line); self.cache[ref] = r
        return r


# ----------------------------------------------------------------------------- driver
SRC_UNITS = ["field", "ecurve", "ecpoint", "mpzurandom", "ecdsa", "ecelgamal", "safememory"]


def run(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, **kw)
    return r


def clang_ir(src, flags, workdir, opt="sroa,mem2reg,simplifycfg", olevel="-O0"):
    base = os.path.join(workdir, hashlib.sha1((src + repr(flags) + opt + olevel).encode()).hexdigest()[:16])
    ll = base + ".ll"; oll = base + ".o.ll"
    cmd = ["clang-18", olevel, "-g", "-fno-discard-value-names", "-std=gnu11", "-w"]
    if olevel == "-O0": cmd += ["-Xclang", "-disable-O0-optnone"]
    cmd += flags + ["-S", "-emit-llvm", "-o", ll, src]
    r = run(cmd)
    if r.returncode != 0:
        raise AnalysisBroken("clang failed on %s: %s" % (src, r.stderr[:600]))
    if opt:
        r = run(["opt-18" if shutil.which("opt-18") else "opt", "-passes=" + opt, "-S", ll, "-o", oll])
        if r.returncode != 0: raise AnalysisBroken("opt failed: " + r.stderr[:600])
    else: oll = ll
    txt = open(oll).read()
    for f in {ll, oll}: os.unlink(f)
    return txt


class Program:
    """All units of one component, parsed; functions resolved across units."""

    def __init__(self, units, flags, extra_src=None, opt="mem2reg", olevel="-O0"):
        self.mods = {}; self.units = list(units)
        self.funcs = {}; self.globals = {}
        wd = tempfile.mkdtemp(prefix="sa_ir_")
        try:
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor(8) as ex:
                texts = list(ex.map(lambda u: clang_ir(u, flags, wd, opt, olevel), units))
        finally:
            shutil.rmtree(wd, ignore_errors=True)
        for u, tx in zip(units, texts):
            m = parse_module(tx); m.path = u
            m.layout = Layout(m); m.dbgi = Dbg(m)
            self.mods[u] = m
            for k, f in m.funcs.items():
                f.key = k
                if "available_externally" in f.linkage: continue
                if "internal" in f.linkage:
                    continue
                self.funcs[k] = f
        self.typemod = None

    def lookup(self, mod, name):
        f = mod.funcs.get(name)
        if f is not None and "available_externally" not in f.linkage: return f
        return self.funcs.get(name)

    def offsets(self, struct):
        """{field: (byte offset, size)} of a C struct, from the debug info"""
        if not hasattr(self, "_off"): self._off = {}
        if struct in self._off: return self._off[struct]
        for m in self.mods.values():
            for n, s in m.md.items():
                if s.startswith("!DICompositeType(tag: DW_TAG_structure_type") and f'name: "{struct}"' in s and "elements:" in s:
                    e = re.search(r"elements: (!\d+)", s).group(1)
                    r = self._members(m, e)
                    self._off[struct] = r; return r
            # typedef of an anonymous struct
            for n, s in m.md.items():
                if s.startswith("!DIDerivedType(tag: DW_TAG_typedef") and f'name: "{struct}"' in s:
                    b = re.search(r"baseType: (!\d+)", s)
                    if not b: continue
                    t = m.dbgi.node(b.group(1)) or ""
                    e = re.search(r"elements: (!\d+)", t)
                    if e and "DW_TAG_structure_type" in t or e and "DW_TAG_union_type" in t:
                        r = self._members(m, e.group(1)); self._off[struct] = r; return r
        raise AnalysisBroken("struct not found: " + struct)

    def _members(self, m, e):
        r = {}
        for x in re.findall(r"!\d+", m.dbgi.node(e)):
            d = m.dbgi.node(x)
            nm = re.search(r'name: "([^"]*)"', d); of = re.search(r"offset: (\d+)", d); sz = re.search(r"size: (\d+)", d)
            if nm: r[nm.group(1)] = (int(of.group(1)) // 8 if of else 0, int(sz.group(1)) // 8 if sz else 0)
        return r

    def allfuncs(self):
        for m in self.mods.values():
            for f in m.funcs.values():
                if "available_externally" in f.linkage: continue
                yield f

    def where(self, fname):
        f = self.funcs.get(fname) if isinstance(fname, str) else fname
        if f is None: return str(fname)
        for i in f.insts():
            if i.dbg:
                a, l = self.loc(i)
                if l: return f"{rel(a)}:{l} ({f.name})"
        return f"{rel(f.module.path)} ({f.name})"

    def loc(self, inst):
        m = inst.fn.module
        f, l = m.dbgi.loc(inst.dbg)
        return f, l


def rel(path):
    return path[len(REPO) + 1:] if path.startswith(REPO + "/") else path


def lib_sources():
    """Source list of the library, read from the build's own Makefile.am."""
    mk = open(os.path.join(REPO, "src/Makefile.am")).read()
    names = set()
    for mm in re.finditer(r"^\s*(?:libecc_la_SOURCES|BUILD_SAFECLEAN)\s*\+?=\s*((?:.|\\\n)*?)$", mk, re.M):
        for w in mm.group(1).replace("\\\n", " ").split():
            if w.endswith(".c"): names.add(w)
    out = [os.path.join(REPO, "src", w) for w in sorted(names)]
    if len(out) < 7: raise AnalysisBroken("library sources not found in src/Makefile.am: %s" % out)
    return out


LIB_FLAGS = ["-DSAFE_CLEAN", "-I", os.path.join(REPO, "include")]


def lib_program(**kw):
    return Program(lib_sources(), LIB_FLAGS, **kw)
