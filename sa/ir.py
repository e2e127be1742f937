"""Parser for the textual LLVM IR that clang+mem2reg produce from the repository's sources.

The checks never look at C text: they analyse this resolved, typed intermediate representation.
"""
import re


class IRError(Exception):
    pass


# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ("k", "n", "elt", "fields", "name", "packed")

    def __init__(self, k, n=0, elt=None, fields=None, name=None, packed=False):
        self.k, self.n, self.elt, self.fields, self.name, self.packed = k, n, elt, fields, name, packed

    def __repr__(self):
        return {"i": f"i{self.n}", "arr": f"[{self.n} x {self.elt}]", "st": self.name}.get(self.k, self.k)


PTR = Ty("ptr")
VOID = Ty("void")
I1 = Ty("i", 1)
_ints = {}


def int_ty(n):
    t = _ints.get(n)
    if t is None:
        t = _ints[n] = Ty("i", n)
    return t


TOK = re.compile(r'\s*(?:("(?:[^"\\]|\\.)*")|(c"(?:[^"\\]|\\[0-9A-Fa-f]{2})*")|([%@]"[^"]*")|([%@!#$]?[-\w.$]+)|(\.\.\.)|(.))')


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m or m.end() == pos:
            break
        t = m.group(0).strip()
        if m.group(2):
            t = m.group(2)
        if t:
            out.append(t)
        pos = m.end()
    return out


PARAM_ATTRS = {"noundef", "nonnull", "signext", "zeroext", "inreg", "noalias", "nocapture", "readonly", "writeonly",
               "readnone", "returned", "immarg", "noreturn", "nounwind", "allocsize", "dead_on_unwind", "writable",
               "nofree", "dso_local", "inbounds", "nuw", "nsw", "exact", "nneg", "disjoint", "tail", "musttail",
               "notail", "fastcc", "ccc", "local_unnamed_addr", "unnamed_addr"}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise IRError(f"expected {x} got {y} in {' '.join(self.t)[:200]}")

    def skip_attrs(self):
        while True:
            x = self.peek()
            if x in PARAM_ATTRS:
                self.i += 1
            elif x in ("align", "dereferenceable", "dereferenceable_or_null", "byval", "sret", "allocalign"):
                self.i += 1
                if self.peek() == "(":
                    depth = 0
                    while True:
                        y = self.next()
                        if y == "(":
                            depth += 1
                        elif y == ")":
                            depth -= 1
                            if depth == 0:
                                break
                else:
                    self.i += 1
            else:
                return

    def type(self):
        x = self.next()
        if x == "ptr":
            t = PTR
        elif x == "void":
            t = VOID
        elif x[0] == "i" and x[1:].isdigit():
            t = int_ty(int(x[1:]))
        elif x == "[":
            n = int(self.next())
            self.expect("x")
            e = self.type()
            self.expect("]")
            t = Ty("arr", n, e)
        elif x == "{":
            fs = []
            if not self.accept("}"):
                while True:
                    fs.append(self.type())
                    if self.accept("}"):
                        break
                    self.expect(",")
            t = Ty("lit", fields=fs)
        elif x == "<":
            if self.peek() == "{":
                self.next()
                fs = []
                if not self.accept("}"):
                    while True:
                        fs.append(self.type())
                        if self.accept("}"):
                            break
                        self.expect(",")
                self.expect(">")
                t = Ty("lit", fields=fs, packed=True)
            else:
                n = int(self.next()); self.expect("x"); e = self.type(); self.expect(">")
                t = Ty("vec", n, e)
        elif x[0] == "%":
            t = Ty("st", name=x[1:].strip('"'))
        elif x in ("double", "float", "x86_fp80", "half"):
            t = Ty("fp", {"double": 8, "float": 4, "x86_fp80": 16, "half": 2}[x])
        elif x in ("label", "metadata", "token", "opaque"):
            t = Ty(x)
        else:
            raise IRError(f"type? {x} in {' '.join(self.t)[:200]}")
        # function type  T (args)
        return t

    def maybe_fnty(self):
        """after a return type in a call: optional (argtypes) spec"""
        if self.peek() == "(":
            depth = 0
            j = self.i
            while True:
                y = self.t[j]
                if y == "(":
                    depth += 1
                elif y == ")":
                    depth -= 1
                    if depth == 0:
                        break
                j += 1
            va = "..." in self.t[self.i:j]
            self.i = j + 1
            return True, va
        return False, False

    def value(self, ty):
        """operand of known type"""
        x = self.next()
        c = x[0]
        if c == "%":
            return ("r", x[1:].strip('"'))
        if c == "@":
            return ("g", self.m.gname(x[1:].strip('"')), 0)
        if c == "-" or c.isdigit():
            try:
                return int(x)
            except ValueError:
                return ("fp", x)
        if x == "null" or x == "zeroinitializer":
            if x == "zeroinitializer":
                return ("zero",)
            return 0
        if x == "true":
            return 1
        if x == "false":
            return 0
        if x in ("undef", "poison"):
            return ("undef",)
        if x == "getelementptr":
            self.skip_attrs()
            if self.peek() == "inrange":
                self.next()
            self.expect("(")
            bt = self.type()
            self.expect(",")
            self.type()
            base = self.value(PTR)
            off = 0
            first = True
            cur = bt
            while self.accept(","):
                self.skip_attrs()
                if self.peek() == "inrange":
                    self.next()
                it = self.type()
                idx = self.value(it)
                if first:
                    off += idx * self.m.sizeof(bt)
                    first = False
                else:
                    o, cur = self.m.step(cur, idx)
                    off += o
            self.expect(")")
            if base == 0:
                return off
            return ("g", base[1], base[2] + off)
        if x in ("ptrtoint", "inttoptr", "bitcast", "addrspacecast", "trunc", "zext", "sext"):
            self.expect("(")
            t = self.type()
            v = self.value(t)
            self.expect("to")
            self.type()
            self.expect(")")
            return v
        if x in ("add", "sub", "mul"):
            self.skip_attrs()
            self.expect("(")
            t = self.type(); a = self.value(t); self.expect(","); t2 = self.type(); b = self.value(t2)
            self.expect(")")
            if isinstance(a, int) and isinstance(b, int):
                return {"add": a + b, "sub": a - b, "mul": a * b}[x]
            return ("undef",)
        if x == "{" or x == "[" or x == "<":
            # aggregate constant: list of typed values
            packed = False
            if x == "<":
                self.expect("{")
                x = "{"
                packed = True
            close = {"{": "}", "[": "]"}[x]
            out = []
            if not self.accept(close):
                while True:
                    t = self.type()
                    out.append((t, self.value(t)))
                    if self.accept(close):
                        break
                    self.expect(",")
            if packed:
                self.expect(">")
            return ("agg", out)
        if x.startswith('c"'):
            return ("str", decode_cstr(x))
        if x == "asm":
            return ("asm",)
        if c == "0" or x.startswith("0x"):
            return ("fp", x)
        raise IRError(f"value? {x} in {' '.join(self.t)[:300]}")

    def tyval(self):
        t = self.type()
        self.skip_attrs()
        if t.k == "metadata":
            # metadata operand: skip until , or ) at depth 0
            depth = 0
            while True:
                y = self.peek()
                if y is None:
                    break
                if depth == 0 and y in (",", ")"):
                    break
                if y == "(":
                    depth += 1
                if y == ")":
                    depth -= 1
                self.i += 1
            return t, ("md",)
        return t, self.value(t)


def decode_cstr(x):
    b = bytearray()
    s = x[2:-1]
    i = 0
    while i < len(s):
        if s[i] == "\\":
            b.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            b += s[i].encode("latin1", "replace")
            i += 1
    return bytes(b)


class Ins:
    __slots__ = ("op", "res", "a", "line", "ty", "blk", "idx")

    def __init__(self, op, res, a, line, ty=None):
        self.op, self.res, self.a, self.line, self.ty = op, res, a, line, ty


class Block:
    __slots__ = ("name", "ins", "phis", "preds", "succs", "loophead", "livein", "fn")

    def __init__(self, name):
        self.name = name
        self.ins = []
        self.phis = []
        self.preds = []
        self.succs = []
        self.loophead = False
        self.livein = frozenset()


class Func:
    __slots__ = ("name", "src", "params", "pty", "ret", "vararg", "blocks", "entry", "file", "line", "mod", "internal",
                 "ninstr", "callees")

    def __repr__(self):
        return f"<fn {self.name}>"


class Global:
    __slots__ = ("name", "ty", "init", "const", "internal", "mod", "size", "external")


STRIP_MD = re.compile(r',\s*![\w.]+ ![0-9]+')
DBG = re.compile(r'!dbg !([0-9]+)')


class Module:
    def __init__(self, text, tu):
        self.tu = tu
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}
        self.md = {}
        self._sz = {}
        self._lay = {}
        self.internal_names = set()
        self.di_structs = None
        self.parse(text)

    # -- naming: internal symbols are qualified by translation unit
    def gname(self, n):
        return n + "@" + self.tu if n in self.internal_names else n

    # -- layout
    def align(self, t):
        k = t.k
        if k == "i":
            b = max(1, (t.n + 7) // 8)
            a = 1
            while a < b:
                a *= 2
            return min(a, 16)
        if k == "ptr":
            return 8
        if k == "fp":
            return t.n
        if k in ("arr", "vec"):
            return self.align(t.elt)
        if k == "st":
            return self.align(self.structs[t.name])
        if k == "lit":
            if t.packed:
                return 1
            return max([self.align(f) for f in t.fields] or [1])
        return 1

    def sizeof(self, t):
        k = t.k
        if k == "i":
            b = max(1, (t.n + 7) // 8)
            a = 1
            while a < b:
                a *= 2
            return a
        if k == "ptr":
            return 8
        if k == "fp":
            return t.n
        if k in ("arr", "vec"):
            return t.n * self.sizeof(t.elt)
        if k == "st":
            v = self._sz.get(t.name)
            if v is None:
                s = self.structs.get(t.name)
                if s is None or s.k == "opaque":
                    raise IRError("opaque struct " + t.name)
                v = self._sz[t.name] = self.sizeof(s)
            return v
        if k == "lit":
            return self.layout(t)[1]
        if k == "void":
            return 0
        raise IRError("sizeof " + k)

    def layout(self, t):
        key = id(t)
        v = self._lay.get(key)
        if v is None:
            offs = []
            o = 0
            for f in t.fields:
                a = 1 if t.packed else self.align(f)
                o = (o + a - 1) // a * a
                offs.append(o)
                o += self.sizeof(f)
            a = self.align(t)
            o = (o + a - 1) // a * a
            v = self._lay[key] = (offs, o)
        return v

    def resolve_st(self, t):
        while t.k == "st":
            t = self.structs[t.name]
        return t

    def step(self, t, idx):
        t = self.resolve_st(t)
        if t.k == "lit":
            return self.layout(t)[0][idx], t.fields[idx]
        if t.k in ("arr", "vec"):
            return idx * self.sizeof(t.elt), t.elt
        raise IRError("gep into " + t.k)

    # -- parsing
    def parse(self, text):
        lines = text.split("\n")
        for l in lines:
            if l.startswith("@"):
                m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)', l)
                if m and re.match(r'(?:private|internal)\b', m.group(2)):
                    self.internal_names.add(m.group(1).strip('"'))
            elif l.startswith("define"):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                if re.match(r'define (?:dso_local )?(?:internal|private)\b', l):
                    self.internal_names.add(m.group(1).strip('"'))
        gl = []
        fn = None
        body = []
        for l in lines:
            if fn is not None:
                if l == "}":
                    self.funcs_raw.append((fn, body)) if hasattr(self, "funcs_raw") else setattr(self, "funcs_raw", [(fn, body)])
                    fn = None
                else:
                    body.append(l)
                continue
            if l.startswith("define"):
                fn, body = l, []
            elif l.startswith("%"):
                m = re.match(r'%("[^"]*"|[\w.$-]+) = type (.*)', l)
                name = m.group(1).strip('"')
                if m.group(2).strip() == "opaque":
                    self.structs[name] = Ty("opaque")
                else:
                    self.structs[name] = P(tokenize(m.group(2)), self).type()
            elif l.startswith("@"):
                gl.append(l)
            elif l.startswith("declare"):
                m = re.search(r'@("[^"]*"|[\w.$-]+)\(', l)
                n = m.group(1).strip('"')
                self.decls[n] = l
            elif l.startswith("!"):
                m = re.match(r'!(\d+) = (?:distinct )?(.*)', l)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
        for l in gl:
            self.parse_global(l)
        for h, b in getattr(self, "funcs_raw", []):
            self.parse_func(h, b)

    def loc_line(self, n):
        s = self.md.get(n, "")
        m = re.match(r'!DILocation\(line: (\d+)', s)
        return int(m.group(1)) if m else 0

    def parse_global(self, l):
        m = re.match(r'@("[^"]*"|[\w.$-]+) = (.*)', l)
        name = m.group(1).strip('"')
        rest = STRIP_MD.sub("", m.group(2))
        toks = tokenize(rest)
        p = P(toks, self)
        g = Global()
        g.internal = name in self.internal_names
        g.name = self.gname(name)
        g.mod = self
        g.external = False
        while p.peek() not in ("global", "constant"):
            x = p.next()
            if x in ("external", "extern_weak"):
                g.external = True
            if x == "alias":
                return
        g.const = p.next() == "constant"
        g.ty = p.type()
        try:
            g.size = self.sizeof(g.ty)
        except IRError:
            g.size = None
        g.init = None
        if not g.external and p.peek() is not None and p.peek() != ",":
            g.init = p.value(g.ty)
        self.globals[g.name] = g

    def parse_func(self, head, body):
        m = re.search(r'@("[^"]*"|[\w.$-]+)\(', head)
        name = m.group(1).strip('"')
        f = Func()
        f.src = name
        f.name = self.gname(name)
        f.internal = name in self.internal_names
        f.mod = self
        dm = DBG.search(head)
        f.file, f.line = self.tu, 0
        if dm:
            sp = self.md.get(int(dm.group(1)), "")
            lm = re.search(r'\bline: (\d+)', sp)
            if lm:
                f.line = int(lm.group(1))
            fm = re.search(r'\bfile: !(\d+)', sp)
            if fm:
                fd = self.md.get(int(fm.group(1)), "")
                fnm = re.search(r'filename: "([^"]*)"', fd)
                if fnm:
                    f.file = fnm.group(1)
        # params
        i = m.end()
        depth = 1
        j = i
        while depth:
            if head[j] == "(":
                depth += 1
            elif head[j] == ")":
                depth -= 1
            j += 1
        ps = head[i:j - 1]
        f.params, f.pty, f.vararg = [], [], False
        if ps.strip():
            p = P(tokenize(ps), self)
            while True:
                if p.accept("..."):
                    f.vararg = True
                    break
                t = p.type()
                p.skip_attrs()
                nm = p.next()
                f.params.append(nm[1:])
                f.pty.append(t)
                if not p.accept(","):
                    break
        rp = P(tokenize(head[len("define"):m.start()]), self)
        rp.skip_attrs()
        while rp.peek() in ("internal", "dso_local", "private", "hidden", "linkonce_odr", "weak"):
            rp.next()
            rp.skip_attrs()
        f.ret = rp.type()
        f.blocks = {}
        f.entry = None
        cur = None
        f.ninstr = 0
        f.callees = set()
        k = 0
        joined = []
        # join multi-line switch
        while k < len(body):
            l = body[k]
            if re.match(r'\s+switch ', l) and "]" not in l:
                while "]" not in body[k]:
                    k += 1
                    l += " " + body[k].strip()
            joined.append(l)
            k += 1
        for l in joined:
            if not l.strip():
                continue
            lm = re.match(r'^("[^"]*"|[\w.$-]+):', l)
            if lm:
                cur = Block(lm.group(1).strip('"'))
                cur.fn = f
                f.blocks[cur.name] = cur
                if f.entry is None:
                    f.entry = cur
                continue
            s = l.strip()
            if s.startswith(";"):
                continue
            if "@llvm.dbg." in s or "@llvm.lifetime" in s:
                continue
            if cur is None:
                cur = Block("0")
                cur.fn = f
                f.blocks["0"] = cur
                f.entry = cur
            ins = self.parse_ins(s, f)
            f.ninstr += 1
            ins.blk = cur
            if ins.op == "phi":
                cur.phis.append(ins)
            else:
                ins.idx = len(cur.ins)
                cur.ins.append(ins)
        self.cfg(f)
        self.funcs[f.name] = f

    def parse_ins(self, s, f):
        line = 0
        dm = DBG.search(s)
        if dm:
            line = self.loc_line(int(dm.group(1)))
        s = STRIP_MD.sub("", s)
        res = None
        m = re.match(r'%("[^"]*"|[\w.$-]+) = (.*)', s)
        if m:
            res = m.group(1).strip('"')
            s = m.group(2)
        toks = tokenize(s)
        p = P(toks, self)
        op = p.next()
        if op in ("tail", "musttail", "notail"):
            op = p.next()
        if op == "alloca":
            t = p.type()
            cnt = 1
            if p.accept(","):
                if p.peek() != "align":
                    ct = p.type()
                    cnt = p.value(ct)
            return Ins("alloca", res, (t, cnt), line, PTR)
        if op == "load":
            if p.peek() in ("volatile", "atomic"):
                p.next()
            t = p.type()
            p.expect(",")
            _, v = p.tyval()
            return Ins("load", res, (self.sizeof(t), v), line, t)
        if op == "store":
            vol = False
            if p.peek() in ("volatile", "atomic"):
                p.next()
            t, v = p.tyval()
            p.expect(",")
            _, d = p.tyval()
            return Ins("store", None, (self.sizeof(t), v, d), line, t)
        if op == "getelementptr":
            p.skip_attrs()
            bt = p.type()
            p.expect(",")
            _, base = p.tyval()
            const = 0
            var = []
            cur = bt
            first = True
            fieldpath = []
            while p.accept(","):
                it, idx = p.tyval()
                if first:
                    sz = self.sizeof(bt)
                    first = False
                    nxt = bt
                else:
                    r = self.resolve_st(cur)
                    if r.k == "lit":
                        o, nxt = self.step(cur, idx)
                        const += o
                        fieldpath.append((cur.name if cur.k == "st" else None, idx))
                        cur = nxt
                        continue
                    sz = self.sizeof(r.elt)
                    nxt = r.elt
                cur = nxt
                if isinstance(idx, int):
                    const += idx * sz
                else:
                    var.append((idx, sz, it.n))
            return Ins("gep", res, (base, const, tuple(var), tuple(fieldpath)), line, PTR)
        if op == "icmp":
            pred = p.next()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            w = 64 if t.k == "ptr" else t.n
            return Ins("icmp", res, (pred, a, b, w), line, I1)
        if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
            p.skip_attrs()
            t = p.type()
            a = p.value(t)
            p.expect(",")
            b = p.value(t)
            return Ins("bin", res, (op, a, b, t.n), line, t)
        if op in ("zext", "sext", "trunc", "ptrtoint", "inttoptr", "bitcast"):
            p.skip_attrs()
            t, v = p.tyval()
            p.expect("to")
            t2 = p.type()
            return Ins("cast", res, (op, v, 64 if t.k == "ptr" else t.n, 64 if t2.k == "ptr" else t2.n), line, t2)
        if op in ("sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc", "fadd", "fsub", "fmul", "fdiv", "fcmp",
                  "fneg", "frem"):
            return Ins("fp", res, (op,), line, None)
        if op == "select":
            _, c = p.tyval()
            p.expect(",")
            t, a = p.tyval()
            p.expect(",")
            _, b = p.tyval()
            return Ins("select", res, (c, a, b), line, t)
        if op == "freeze":
            t, a = p.tyval()
            return Ins("cast", res, ("bitcast", a, 64, 64), line, t)
        if op == "phi":
            t = p.type()
            inc = {}
            while True:
                p.expect("[")
                v = p.value(t)
                p.expect(",")
                b = p.next()[1:].strip('"')
                p.expect("]")
                inc[b] = v
                if not p.accept(","):
                    break
            return Ins("phi", res, (inc,), line, t)
        if op == "br":
            if p.peek() == "label":
                p.next()
                return Ins("br", None, (p.next()[1:].strip('"'),), line)
            t = p.type()
            c = p.value(t)
            p.expect(",")
            p.expect("label")
            a = p.next()[1:].strip('"')
            p.expect(",")
            p.expect("label")
            b = p.next()[1:].strip('"')
            return Ins("condbr", None, (c, a, b), line)
        if op == "switch":
            t = p.type()
            v = p.value(t)
            p.expect(",")
            p.expect("label")
            d = p.next()[1:].strip('"')
            p.expect("[")
            cases = []
            while not p.accept("]"):
                ct = p.type()
                cv = p.value(ct)
                p.expect(",")
                p.expect("label")
                cases.append((cv, p.next()[1:].strip('"')))
            return Ins("switch", None, (v, d, tuple(cases), t.n), line)
        if op == "ret":
            t = p.type()
            if t.k == "void":
                return Ins("ret", None, (None,), line)
            return Ins("ret", None, (p.value(t),), line, t)
        if op == "unreachable":
            return Ins("unreachable", None, (), line)
        if op == "call":
            p.skip_attrs()
            while p.peek() in ("fastcc", "ccc"):
                p.next()
            t = p.type()
            fnty, va = p.maybe_fnty()
            p.skip_attrs()
            callee = p.value(PTR)
            if callee == ("asm",):
                return Ins("asm", res, (), line, t)
            p.expect("(")
            args = []
            if not p.accept(")"):
                while True:
                    at, av = p.tyval()
                    args.append((at, av))
                    if p.accept(")"):
                        break
                    p.expect(",")
            if callee[0] == "g":
                f.callees.add(callee[1])
            return Ins("call", res, (callee, tuple(args)), line, t)
        if op == "extractvalue" or op == "insertvalue":
            return Ins("agg", res, (op,), line, None)
        if op == "va_arg":
            return Ins("fp", res, (op,), line, None)
        raise IRError("instruction " + op + ": " + s)

    def cfg(self, f):
        for b in f.blocks.values():
            t = b.ins[-1] if b.ins else None
            if t is None:
                continue
            if t.op == "br":
                b.succs = [t.a[0]]
            elif t.op == "condbr":
                b.succs = [t.a[1], t.a[2]]
            elif t.op == "switch":
                b.succs = [t.a[1]] + [c[1] for c in t.a[2]]
            for s in b.succs:
                f.blocks[s].preds.append(b.name)
        # loop heads: DFS back edges
        state = {}
        st = [(f.entry.name, iter(f.entry.succs))]
        state[f.entry.name] = 1
        while st:
            n, it = st[-1]
            for s in it:
                if s not in state:
                    state[s] = 1
                    st.append((s, iter(f.blocks[s].succs)))
                    break
                elif state[s] == 1:
                    f.blocks[s].loophead = True
            else:
                state[n] = 2
                st.pop()
        # liveness
        use = {}
        dfn = {}
        phiuse = {b: {} for b in f.blocks}

        def regs(v, acc):
            if isinstance(v, tuple):
                if len(v) == 2 and v[0] == "r":
                    acc.add(v[1])
                else:
                    for x in v:
                        regs(x, acc)

        for b in f.blocks.values():
            u, d = set(), set()
            for ph in b.phis:
                d.add(ph.res)
                for pb, v in ph.a[0].items():
                    acc = set()
                    regs(v, acc)
                    phiuse[pb].setdefault(b.name, set()).update(acc)
            for ins in b.ins:
                acc = set()
                regs(ins.a, acc)
                u |= acc - d
                if ins.res:
                    d.add(ins.res)
            use[b.name], dfn[b.name] = u, d
        live = {b: set(use[b]) for b in f.blocks}
        ch = True
        while ch:
            ch = False
            for b in f.blocks.values():
                out = set()
                for s in b.succs:
                    out |= live[s] - {ph.res for ph in f.blocks[s].phis}
                    out |= phiuse[b.name].get(s, set())
                n = use[b.name] | (out - dfn[b.name])
                if n != live[b.name]:
                    live[b.name] = n
                    ch = True
        for b in f.blocks.values():
            b.livein = frozenset(live[b.name] | {ph.res for ph in b.phis})

    # -- debug-info struct layouts
    def di(self):
        if self.di_structs is not None:
            return self.di_structs
        md = self.md

        def ref(s, k):
            m = re.search(r'\b' + k + r': !(\d+)', s)
            return int(m.group(1)) if m else None

        def num(s, k):
            m = re.search(r'\b' + k + r': (\d+)', s)
            return int(m.group(1)) if m else 0

        def nm(s):
            m = re.search(r'\bname: "([^"]*)"', s)
            return m.group(1) if m else None

        def typeinfo(n, depth=0):
            if n is None:
                return ("void",)
            s = md.get(n, "")
            if s.startswith("!DIBasicType"):
                enc = re.search(r'encoding: (\w+)', s)
                enc = enc.group(1) if enc else ""
                kind = "bool" if "boolean" in enc else ("u" if "unsigned" in enc else "s")
                return ("int", num(s, "size") // 8, kind)
            if s.startswith("!DIDerivedType"):
                tag = re.search(r'tag: (\w+)', s).group(1)
                if tag == "DW_TAG_pointer_type":
                    b = ref(s, "baseType")
                    while b is not None and md.get(b, "").startswith("!DIDerivedType") and "pointer_type" not in md[b]:
                        b = ref(md[b], "baseType")
                    bs = md.get(b, "") if b is not None else ""
                    if bs.startswith("!DICompositeType"):
                        return ("ptr", nm(bs))
                    return ("ptr", None)
                return typeinfo(ref(s, "baseType"), depth + 1)
            if s.startswith("!DICompositeType"):
                tag = re.search(r'tag: (\w+)', s).group(1)
                if tag == "DW_TAG_enumeration_type":
                    els = ref(s, "elements")
                    vals = []
                    if els is not None:
                        for e in re.findall(r'!(\d+)', md.get(els, "")):
                            es = md.get(int(e), "")
                            mm = re.search(r'value: (-?\d+)', es)
                            vals.append((nm(es), int(mm.group(1)) if mm else 0))
                    return ("enum", num(s, "size") // 8, nm(s), tuple(vals))
                if tag == "DW_TAG_array_type":
                    return ("arr", num(s, "size") // 8, typeinfo(ref(s, "baseType"), depth + 1))
                return ("struct", num(s, "size") // 8, nm(s), n)
            return ("void",)

        out = {}
        self.di_enums = {}
        for n, s in md.items():
            if s.startswith("!DICompositeType") and "DW_TAG_enumeration_type" in s:
                ti = typeinfo(n)
                for nme, v in ti[3]:
                    self.di_enums[nme] = v
            if s.startswith("!DICompositeType") and ("DW_TAG_structure_type" in s or "DW_TAG_union_type" in s):
                name = nm(s)
                els = ref(s, "elements")
                if name is None or els is None:
                    continue
                fields = {}
                for e in re.findall(r'!(\d+)', md.get(els, "")):
                    es = md.get(int(e), "")
                    if "DW_TAG_member" not in es:
                        continue
                    fields[nm(es)] = (num(es, "offset") // 8, num(es, "size") // 8, typeinfo(ref(es, "baseType")))
                out[name] = (num(s, "size") // 8, fields)
        self.di_structs = out
        return out


class Program:
    """A set of translation units linked together (one per build target)."""

    def __init__(self, mods, name="prog"):
        self.name = name
        self.mods = mods
        self.funcs = {}
        self.globals = {}
        self.structs = {}
        self.enums = {}
        for m in mods:
            for n, f in m.funcs.items():
                if n in self.funcs:
                    raise IRError("duplicate function " + n)
                self.funcs[n] = f
            for n, g in m.globals.items():
                if n not in self.globals or self.globals[n].external:
                    self.globals[n] = g
            for n, s in m.di().items():
                self.structs.setdefault(n, s)
            self.enums.update(m.di_enums)

    def field(self, st, path):
        """(offset, size, typeinfo) of st.path e.g. 'connection.fd'"""
        off = 0
        cur = st
        info = None
        for part in path.split("."):
            s = self.structs.get(cur)
            if s is None:
                raise IRError(f"struct {cur} not found")
            if part not in s[1]:
                raise IRError(f"field {cur}.{part} not found")
            o, sz, info = s[1][part]
            off += o
            if info[0] == "struct":
                cur = info[2]
            else:
                cur = None
        return off, sz, info

    def sizeof(self, st):
        return self.structs[st][0]

    def find(self, src):
        """functions whose source name is src"""
        return [f for f in self.funcs.values() if f.src == src]
