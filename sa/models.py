"""Models of the C library and system-call boundary for the abstract interpreter.

Each model returns every outcome the documented interface allows (success and each failure, with errno set), so an
analysis covers all environment behaviours; nothing is executed."""
import re
from dom import *
from engine import Obj, PUSHED, AnalysisError

MAXERR = 4095
ENOENT, EINTR, EAGAIN, ENOMEM, EINVAL, EBADF = 2, 4, 11, 12, 22, 9


class Models:
    def __init__(self):
        self.tab = {}
        for n in dir(self):
            if n.startswith("f_"):
                self.tab[n[2:]] = getattr(self, n)
        for a, b in (("fcntl64", "fcntl"), ("open64", "open"), ("lstat64", "lstat"), ("__isoc99_sscanf", "sscanf"),
                     ("fstat64", "fstat"), ("stat64", "stat"), ("openat64", "openat"),
                     ("llvm.memcpy.p0.p0.i64", "memcpy"), ("llvm.memmove.p0.p0.i64", "memcpy"), ("memmove", "memcpy"),
                     ("llvm.memset.p0.i64", "memset"), ("__strdup", "strdup")):
            if b in self.tab:
                self.tab[a] = self.tab[b]

    def lookup(self, eng, name):
        m = self.tab.get(name)
        if m is not None and name in eng.prog.funcs and name not in self.boundary:
            return None
        return m

    boundary = frozenset()

    # ------------------------------------------------------------ helpers
    def ok(self, eng, cls):
        """is this class of failures explored in the current configuration?"""
        return cls not in eng.opts.get("nofail", ())

    def set_errno(self, eng, st, v):
        st.setcell(eng.errno_oid, 0, 4, v)

    def errno(self, eng, st):
        return st.getcell(eng.errno_oid, 0, 4)

    def failed(self, eng, st, ne=(), val=None, note=None):
        s = st.copy()
        self.set_errno(eng, s, val if val is not None else s.fresh(1, MAXERR, ne=ne))
        if note:
            s.note(note)
        return s

    def newfd(self, st, role, cloexec, nonblock, data=()):
        v = st.fresh(0, (1 << 31) - 1, kind="fd")
        st.fds[v.t[0][0]] = (role, cloexec, nonblock, data)
        return v

    def fdatom(self, st, v):
        v = st.norm(v)
        if v.__class__ is Lin and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
            i = st.atoms.get(v.t[0][0])
            if i is not None and i.kind == "fd":
                return v.t[0][0]
        return None

    def fdinfo(self, st, v):
        a = self.fdatom(st, v)
        return st.fds.get(a) if a is not None else None

    def use_fd(self, eng, st, v, what):
        """returns 'bad' for an invalid constant, info or None; reports use of a closed descriptor"""
        v = st.norm(v)
        if v.__class__ is int:
            return "bad" if v < 0 else None
        if v is UNDEF:
            eng.report("mem.uninit", st, f"{what}: uninitialised descriptor")
            return "bad"
        a = self.fdatom(st, v)
        if a is None:
            return None
        if a not in st.fds:
            eng.report("fd.closed", st, f"{what} on a descriptor that was already closed")
            return "bad"
        return st.fds[a]

    def extstr(self, eng, st, tag):
        d = eng.__dict__.setdefault("_extstr", {})
        oid = d.get(tag)
        if oid is None:
            oid = d[tag] = eng.newoid()
        if oid not in st.mem:
            o = Obj("ext", tag, None, "sym", None, "")
            o.const = True
            o.ghost["$str"] = ("ext", tag)
            st.mem[oid] = o
        return Ptr(oid, 0)

    # strings ---------------------------------------------------
    def cstr(self, st, p):
        """known constant contents at p, without the terminator"""
        if p.__class__ is not Ptr or p.off.__class__ is not int:
            return None
        o = st.mem.get(p.oid)
        if o is None:
            return None
        g = o.ghost.get("$str")
        if g is not None and p.off == 0 and g[0] == "const":
            return g[1]
        if o.const or "$cstr" in o.ghost:
            for off, b in o.ghost.get("$cstr", ()):
                if off <= p.off < off + len(b):
                    r = b[p.off - off:]
                    z = r.find(b"\0")
                    if z >= 0 and (o.const or not o.ghost.get("$mod")):
                        return r[:z]
        if not o.alive:
            return None
        # concrete bytes
        if o.size.__class__ is int and o.fill in ("zero", "undef", "sym"):
            out = bytearray()
            i = p.off
            while i < o.size and len(out) < 256:
                b = self.byte(o, i, st)
                if b is None:
                    return None
                if b == 0:
                    return bytes(out)
                out.append(b)
                i += 1
        return None

    def byte(self, o, i, st):
        c = o.cells.get(i)
        if c is not None and c[0] == 1:
            v = st.norm(c[1])
            return v & 255 if v.__class__ is int else None
        for co, (cn, cv) in o.cells.items():
            if co <= i < co + cn:
                v = st.norm(cv)
                return (v >> (8 * (i - co))) & 255 if v.__class__ is int else None
        return 0 if o.fill == "zero" else None

    def content(self, st, p):
        """content value of the string at p: ('const', bytes) | ('atom', Lin) | ('fmt', ...) | ('ext', tag) | None"""
        if p.__class__ is not Ptr:
            return None
        o = st.mem.get(p.oid)
        if o is None:
            return None
        if p.off.__class__ is int and p.off == 0 and "$str" in o.ghost:
            return o.ghost["$str"]
        c = self.cstr(st, p)
        if c is not None:
            return ("const", c)
        return None

    def content_mk(self, st, p):
        """content, inventing a content atom for an unknown string"""
        c = self.content(st, p)
        if c is None and p.__class__ is Ptr and p.oid in st.mem and p.off.__class__ is int:
            a = st.fresh(0, 1 << 62, kind="str")
            c = ("atom", a)
            if p.off == 0 and not st.mem[p.oid].const:
                st.setg(p.oid, "$str", c)
        return c

    def terminated(self, st, p):
        """None if p is not provably NUL-terminated inside its object, else its length (int/Lin) or True"""
        o = st.mem.get(p.oid)
        if o is None:
            return None
        if o.kind == "ext":
            return True
        if p.off.__class__ is int:
            c = self.cstr(st, p)
            if c is not None:
                return len(c)
        if "$str" in o.ghost and p.off.__class__ is int and p.off == 0:
            return True
        f = o.ghost.get("$strn")
        if f is not None and p.off.__class__ is int and f[0] == p.off:
            n, r = f[1], f[2]
            if st.ge0(sub(add(n, -1), r)):
                return r
        if o.size.__class__ is int and p.off.__class__ is int:
            for i in range(p.off, min(o.size, p.off + 8192)):
                if self.byte(o, i, st) == 0:
                    return True
        return None

    def check_str(self, eng, st, p, what):
        if not eng.check_ptr(st, p, 1, what):
            return False
        if p.__class__ is Ptr and self.terminated(st, p) is None:
            eng.report("mem.unterminated", st, f"{what}: the string in {st.mem[p.oid].tag} is not known to be terminated "
                       "inside its buffer")
            return False
        return True

    def length(self, eng, st, p):
        c = self.cstr(st, p)
        if c is not None:
            return len(c)
        t = self.terminated(st, p)
        if t.__class__ in (int, Lin):
            return t
        ct = self.content_mk(st, p)
        key = ("strlen", ct)
        r = st.memo.get(key)
        if r is None:
            o = st.mem[p.oid]
            hi = 1 << 20
            if o.size.__class__ is int and p.off.__class__ is int:
                hi = max(0, o.size - p.off - 1)
                for i in range(p.off, min(o.size, p.off + 8192)):
                    if self.byte(o, i, st) == 0:
                        hi = i - p.off
                        break
            r = st.memo[key] = st.fresh(0, hi)
        return st.norm(r)

    def str_eq(self, eng, st, a, b):
        """[(state, bool)] whether contents a and b are equal"""
        if a is None or b is None:
            return [(st.copy(), True), (st, False)]
        if a[0] == "const" and b[0] == "const":
            return [(st, a[1] == b[1])]
        if b[0] == "atom" and a[0] != "atom":
            a, b = b, a
        if a[0] == "atom":
            x = st.norm(a[1])
            if b[0] == "atom":
                y = st.norm(b[1])
                if x == y:
                    return [(st, True)]
                k = ("streq",) + tuple(sorted((x.t[0][0], y.t[0][0])))
                if k in st.memo:
                    return [(st, False)]
                fx, fy = st.atoms[x.t[0][0]].facts, st.atoms[y.t[0][0]].facts
                m = self.merge_facts(fx | fy)
                out = []
                if m is not None:
                    s = st.copy()
                    # substitute the younger atom by the older one
                    o_, n_ = sorted((x.t[0][0], y.t[0][0]))
                    s.sub = dict(s.sub)
                    s.sub[n_] = atom(o_)
                    s.atoms[o_] = s.atoms[o_].with_(facts=m)
                    out.append((s, True))
                st.memo[k] = False
                out.append((st, False))
                return out
            if b[0] == "const":
                ai = x.t[0][0]
                facts = st.atoms[ai].facts
                for f in facts:
                    if f[0] == "eqc":
                        return [(st, f[1] == b[1])]
                out = []
                m = self.merge_facts(facts | {("eqc", b[1])})
                if m is not None:
                    s = st.copy()
                    s.atoms[ai] = s.atoms[ai].with_(facts=m)
                    out.append((s, True))
                st.atoms[ai] = st.atoms[ai].with_(facts=facts | {("neqc", b[1])})
                out.append((st, False))
                return out
        if a == b:
            return [(st, True)]
        return [(st.copy(), True), (st, False)]

    def merge_facts(self, facts):
        """None if contradictory"""
        eq = {f[1] for f in facts if f[0] == "eqc"}
        neq = {f[1] for f in facts if f[0] == "neqc"}
        px = {f[1] for f in facts if f[0] == "pfx"}
        npx = {f[1] for f in facts if f[0] == "npfx"}
        if len(eq) > 1:
            return None
        for e in eq:
            if e in neq or any(not e.startswith(p) for p in px) or any(e.startswith(p) for p in npx):
                return None
        for p in px:
            for q in px:
                if not (p.startswith(q) or q.startswith(p)):
                    return None
            for q in npx:
                if p.startswith(q):
                    return None
        return frozenset(facts)

    def str_pfx(self, eng, st, a, pre):
        """[(state, bool)] whether content a starts with the constant bytes pre"""
        if a is None:
            return [(st.copy(), True), (st, False)]
        if a[0] == "const":
            return [(st, a[1].startswith(pre))]
        if a[0] == "fmt":
            lit = a[1].split(b"%")[0]
            if lit.startswith(pre):
                return [(st, True)]
            if not pre.startswith(lit):
                return [(st, False)]
        if a[0] == "atom":
            x = st.norm(a[1])
            ai = x.t[0][0]
            facts = st.atoms[ai].facts
            for f in facts:
                if f[0] == "eqc":
                    return [(st, f[1].startswith(pre))]
                if f[0] == "pfx":
                    if f[1].startswith(pre):
                        return [(st, True)]
                    if not pre.startswith(f[1]):
                        return [(st, False)]
                if f[0] == "npfx" and pre.startswith(f[1]):
                    return [(st, False)]
            s = st.copy()
            m = self.merge_facts(facts | {("pfx", pre)})
            out = []
            if m is not None:
                s.atoms[ai] = s.atoms[ai].with_(facts=m)
                out.append((s, True))
            st.atoms[ai] = st.atoms[ai].with_(facts=facts | {("npfx", pre)})
            out.append((st, False))
            return out
        return [(st.copy(), True), (st, False)]

    def cmp_result(self, st, eq):
        return 0 if eq else st.fresh(-255, 255, ne=[0])

    # memory ----------------------------------------------------
    def copy_range(self, st, d, doff, s, soff, n):
        so = st.mem[s]
        cells = sorted((co, cn, cv) for co, (cn, cv) in so.cells.items() if co < soff + n and soff < co + cn)
        pieces = []
        pos = soff
        for co, cn, cv in cells:
            a, b = max(co, soff), min(co + cn, soff + n)
            if a > pos:
                pieces.append((pos, a - pos, None))
            if a == co and b == co + cn:
                pieces.append((a, b - a, cv))
            else:
                cv = st.norm(cv)
                if cv.__class__ is int:
                    pieces.append((a, b - a, cv >> (8 * (a - co))))
                elif cv is UNDEF:
                    pieces.append((a, b - a, UNDEF))
                else:
                    q = a
                    while q < b:
                        w = min(8, b - q)
                        pieces.append((q, w, st.unk(w)))
                        q += w
            pos = b
        if pos < soff + n:
            pieces.append((pos, soff + n - pos, None))
        fill = so.fill
        for a, w, v in pieces:
            if v is None:
                if fill == "zero":
                    v = 0
                elif fill == "undef":
                    v = UNDEF
                else:
                    q = a
                    while q < a + w:
                        k = min(8, a + w - q)
                        # keep field granularity of lazily typed objects
                        st.setcell(d, doff + q - soff, k, st.fillval(s, q, k) if s in st.mem else st.unk(k))
                        q += k
                    continue
            if v.__class__ is int:
                v = st._ext(v, w) if w <= 8 else v
            st.setcell(d, doff + a - soff, w, v)

    def f_memcpy(self, eng, st, ins, a):
        d, s, n = a[0], a[1], a[2]
        out = []
        for st, n in eng.resolve(st, n, 64, False):
            if n == 0:
                out.append((st, d))
                continue
            if not eng.check_ptr(st, s, n, "copy source") or not eng.check_ptr(st, d, n, "copy target", True):
                continue
            if n.__class__ is int and s.off.__class__ is int and d.off.__class__ is int:
                src = st.mem[s.oid].ghost.get("$str")
                eng_drop = "$str" in st.mem[d.oid].ghost or "$strn" in st.mem[d.oid].ghost
                if eng_drop:
                    eng.drop_content(st, d.oid)
                self.copy_range(st, d.oid, d.off, s.oid, s.off, n)
            else:
                src = st.mem[s.oid].ghost.get("$str")
                eng.drop_content(st, d.oid)
                st.havoc(d.oid, d.off, n)
            if src is not None and s.off == 0 and d.off == 0:
                L = self.length(eng, st, s)
                if st.ge0(sub(n, add(L, 1))):
                    st.setg(d.oid, "$str", src)
            out.append((st, d))
        return out

    def f_memset(self, eng, st, ins, a):
        d, v, n = a[0], a[1], a[2]
        out = []
        for st, n in eng.resolve(st, n, 64, False):
            if n == 0:
                out.append((st, d))
                continue
            if not eng.check_ptr(st, d, n, "memset", True):
                continue
            eng.drop_content(st, d.oid)
            if n.__class__ is int and d.off.__class__ is int and v.__class__ is int:
                b = v & 255
                val = 0
                if b:
                    val = int.from_bytes(bytes([b]) * n, "little")
                o = st.w(d.oid)
                if b == 0 and d.off == 0 and n == o.size:
                    o.cells = {}
                    o.fill = "zero"
                else:
                    st.setcell(d.oid, d.off, n, st._ext(val, n) if n <= 8 else val)
            else:
                st.havoc(d.oid, d.off, n)
            out.append((st, d))
        return out

    def alloc(self, eng, st, size, fill, what):
        out = []
        if self.ok(eng, "alloc"):
            s = self.failed(eng, st, val=ENOMEM, note=f"{what} fails")
            out.append((s, 0))
        oid = st.new("heap", f"object allocated at {st.here()}", size, fill)
        eng.count("allocations")
        out.append((st, Ptr(oid, 0)))
        return out

    def f_calloc(self, eng, st, ins, a):
        n = a[0]
        if n.__class__ is int and a[1].__class__ is int:
            size = n * a[1]
        elif a[1].__class__ is int:
            size = scale(n, a[1])
        else:
            size = scale(a[1], n) if n.__class__ is int else st.fresh(0, 1 << 40)
        return self.alloc(eng, st, size, "zero", "calloc")

    def f_malloc(self, eng, st, ins, a):
        return self.alloc(eng, st, a[0], "undef", "malloc")

    def f_realloc(self, eng, st, ins, a):
        p, n = a
        out = []
        for st, n in eng.resolve(st, n, 64, False):
            if p.__class__ is Ptr:
                if not eng.check_ptr(st, p, 1 if st.mem[p.oid].size != 0 else 0, "realloc"):
                    continue
            elif p != 0:
                eng.report("mem.badfree", st, "realloc of an invalid pointer")
                continue
            if self.ok(eng, "alloc"):
                out.append((self.failed(eng, st, val=ENOMEM, note="realloc fails"), 0))
            oid = st.new("heap", f"object allocated at {st.here()}", n, "undef")
            if p.__class__ is Ptr:
                o = st.w(oid)
                old = st.mem[p.oid]
                o.cells = dict(old.cells)
                if old.fill != "undef":
                    o.fill = "sym"
                for h in eng.opts.get("on_realloc", ()):
                    h(eng, st, p.oid, oid)
                self.kill(st, p.oid)
            out.append((st, Ptr(oid, 0)))
        return out

    def kill(self, st, oid):
        o = st.w(oid)
        o.alive = False
        o.cells = {}
        o.ghost = {}

    def on_free(self, eng, st, oid):
        pass

    def f_free(self, eng, st, ins, a):
        p = a[0]
        if p.__class__ is int and p == 0:
            return [(st, None)]
        if p is UNDEF:
            eng.report("mem.uninit", st, "free of an uninitialised pointer")
            return []
        if p.__class__ is not Ptr:
            eng.report("mem.badfree", st, "free of an invalid pointer")
            return []
        o = st.mem.get(p.oid)
        if o is None or not o.alive:
            eng.report("mem.doublefree", st, f"free of {o.tag if o else 'a dead object'} after it was freed already",
                       key="df")
            return []
        if o.kind != "heap" or p.off != 0:
            eng.report("mem.badfree", st, f"free of {o.tag}, which was not returned by an allocator")
            return []
        self.on_free(eng, st, p.oid)
        self.kill(st, p.oid)
        eng.count("frees")
        return [(st, None)]

    # strings ---------------------------------------------------
    def f_strdup(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "strdup"):
            return []
        L = self.length(eng, st, a[0])
        c = self.content_mk(st, a[0])
        out = []
        for s, v in self.alloc(eng, st, add(L, 1), "sym", "strdup"):
            if v.__class__ is Ptr:
                s.setg(v.oid, "$str", c)
                s.w(v.oid).tag = "string duplicated at " + s.here()
            out.append((s, v))
        return out

    def f_strndup(self, eng, st, ins, a):
        if not eng.check_ptr(st, a[0], 1, "strndup"):
            return []
        return self.alloc(eng, st, st.fresh(1, 1 << 20), "sym", "strndup")

    def f_strlen(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "strlen"):
            return []
        return [(st, self.length(eng, st, a[0]))]

    def f_strnlen(self, eng, st, ins, a):
        p, n = a
        out = []
        for st, n in eng.resolve(st, n, 64, False):
            if n == 0:
                out.append((st, 0))
                continue
            if p.__class__ is not Ptr and not eng.check_ptr(st, p, 1, "strnlen"):
                continue
            o = st.mem.get(p.oid)
            if o is None or not o.alive:
                eng.check_ptr(st, p, 1, "strnlen")
                continue
            c = self.cstr(st, p)
            if c is not None and n.__class__ is int:
                out.append((st, min(len(c), n)))
                continue
            if not eng.check_ptr(st, p, n, "strnlen"):
                continue
            r = st.fresh(0, st.rng(n)[1])
            st.assume_ge0(sub(n, r))
            if p.off.__class__ is int and not o.const:
                st.setg(p.oid, "$strn", (p.off, n, r))
            out.append((st, r))
        return out

    def f_memchr(self, eng, st, ins, a):
        p, ch, n = a
        if ch != 0 or p.__class__ is not Ptr:
            if not eng.check_ptr(st, p, n, "memchr"):
                return []
            s = st.copy()
            r = st.fresh(0, max(0, st.rng(n)[1] - 1))
            return [(s, 0), (st, Ptr(p.oid, add(p.off, r)))]
        out = []
        for s, r in self.f_strnlen(eng, st, ins, [p, n]):
            for s1 in eng.assume_cmp(s.copy(), "eq", r, n, 64):
                out.append((s1, 0))
            for s1 in eng.assume_cmp(s, "ult", r, n, 64):
                out.append((s1, Ptr(p.oid, add(p.off, s1.norm(r)))))
        return out

    def f_strcmp(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "strcmp") or not self.check_str(eng, st, a[1], "strcmp"):
            return []
        return [(s, self.cmp_result(s, t)) for s, t in
                self.str_eq(eng, st, self.content_mk(st, a[0]), self.content_mk(st, a[1]))]

    def f_strncmp(self, eng, st, ins, a):
        p, q, n = a
        if not eng.check_ptr(st, p, 1, "strncmp") or not eng.check_ptr(st, q, 1, "strncmp"):
            return []
        if n.__class__ is int:
            for x, y in ((p, q), (q, p)):
                c = self.cstr(st, x)
                if c is not None:
                    if self.terminated(st, y) is None and not eng.check_ptr(st, y, n, "strncmp"):
                        return []
                    ct = self.content_mk(st, y)
                    rs = self.str_pfx(eng, st, ct, c[:n]) if n <= len(c) else self.str_eq(eng, st, ct, ("const", c))
                    return [(s, self.cmp_result(s, t)) for s, t in rs]
        s = st.copy()
        return [(s, 0), (st, st.fresh(-255, 255, ne=[0]))]

    def f_memcmp(self, eng, st, ins, a):
        p, q, n = a
        if not eng.check_ptr(st, p, n, "memcmp") or not eng.check_ptr(st, q, n, "memcmp"):
            return []
        if n.__class__ is int:
            for x, y in ((p, q), (q, p)):
                c = self.cstr(st, x)
                if c is not None and n <= len(c):
                    return [(s, self.cmp_result(s, t)) for s, t in
                            self.str_pfx(eng, st, self.content_mk(st, y), c[:n])]
        s = st.copy()
        return [(s, 0), (st, st.fresh(-255, 255, ne=[0]))]

    def f_strncpy(self, eng, st, ins, a):
        d, s, n = a
        if not self.check_str(eng, st, s, "strncpy") or not eng.check_ptr(st, d, n, "strncpy", True):
            return []
        c = self.content_mk(st, s)
        L = self.length(eng, st, s)
        eng.drop_content(st, d.oid)
        st.havoc(d.oid, d.off, n)
        if c is not None and c[0] == "const" and n.__class__ is int and n <= 512 and d.off.__class__ is int:
            b = c[1][:n].ljust(n, b"\0")
            for i in range(n):
                st.setcell(d.oid, d.off + i, 1, b[i])
        if d.off == 0:
            st.setg(d.oid, "$strncpy", (c, n))
            if st.ge0(sub(add(n, -1), L)):
                st.setg(d.oid, "$str", c)
        else:
            st.setg(d.oid, "$strncpy", (d.off, c, n))
        return [(st, d)]

    def f_strcpy(self, eng, st, ins, a):
        d, s = a[0], a[1]
        if not self.check_str(eng, st, s, "strcpy"):
            return []
        L = self.length(eng, st, s)
        if not eng.check_ptr(st, d, add(L, 1), "strcpy", True):
            return []
        c = self.content_mk(st, s)
        eng.drop_content(st, d.oid)
        st.havoc(d.oid, d.off, add(L, 1))
        if d.off == 0:
            st.setg(d.oid, "$str", c)
        return [(st, d)]

    def f_strlcpy(self, eng, st, ins, a):
        d, s, n = a
        if not self.check_str(eng, st, s, "strlcpy"):
            return []
        L = self.length(eng, st, s)
        c = self.content_mk(st, s)
        if n != 0:
            if not eng.check_ptr(st, d, n, "strlcpy", True):
                return []
            eng.drop_content(st, d.oid)
            st.havoc(d.oid, d.off, n)
            if d.off == 0:
                st.setg(d.oid, "$str", c if c is not None and st.ge0(sub(add(n, -1), L)) else
                        ("atom", st.fresh(0, 1 << 62, kind="str")))
        return [(st, L)]

    def f_stpcpy(self, eng, st, ins, a):
        return [(s, Ptr(a[0].oid, add(a[0].off, self.length(eng, s, a[1])))) for s, _ in self.f_strcpy(eng, st, ins, a)]

    def f_mempcpy(self, eng, st, ins, a):
        return [(s, Ptr(a[0].oid, add(a[0].off, s.norm(a[2])))) for s, _ in self.f_memcpy(eng, st, ins, a)]

    def f_reallocarray(self, eng, st, ins, a):
        if a[1].__class__ is int:
            n = a[1] * a[2] if a[2].__class__ is int else scale(a[2], a[1])
        else:
            n = scale(a[1], a[2]) if a[2].__class__ is int else st.fresh(0, 1 << 40)
        return self.f_realloc(eng, st, ins, [a[0], n])

    def f_strchr(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "strchr"):
            return []
        s = st.copy()
        r = st.fresh(0, 1 << 20)
        L = self.length(eng, st, a[0])
        st.assume_ge0(sub(L, r))
        return [(s, 0), (st, Ptr(a[0].oid, add(a[0].off, r)))]

    f_strrchr = f_strchr

    def f_strerror(self, eng, st, ins, a):
        if a[0] is UNDEF:
            eng.report("mem.uninit", st, "strerror of an uninitialised value")
        return [(st, self.extstr(eng, st, "strerror"))]

    def f_atoi(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "atoi"):
            return []
        return [(st, st.fresh(-(1 << 31), (1 << 31) - 1, facts=[("atoi",)]))]

    # printf family ---------------------------------------------
    FMT = re.compile(rb"%([-+ #0]*)(\*|\d+)?(?:\.(\*|\d+))?(hh|h|ll|l|z|j|t|L)?([diouxXcspfgeaEGm%])")

    def check_fmt(self, eng, st, fmtp, args, what):
        """returns (ok, fmt bytes, max length or None)"""
        f = self.cstr(st, fmtp) if fmtp.__class__ is Ptr else None
        eng.count("format_calls")
        if f is None:
            if not self.check_str(eng, st, fmtp, what + " format"):
                return False, None, None
            return True, None, None
        i = 0
        mx = 0
        pos = 0
        for m in self.FMT.finditer(f):
            if mx is not None:
                mx += m.start() - pos
            pos = m.end()
            conv = m.group(5)
            width = 0
            if conv == b"%":
                mx = None if mx is None else mx + 1
                continue
            if conv == b"m":
                mx = None if mx is None else mx + 64
                continue
            prec = m.group(3)
            if m.group(2) == b"*":
                i += 1
            if prec == b"*":
                i += 1
            if i >= len(args):
                eng.report("fmt.args", st, f"{what}: format needs more arguments than are passed")
                return False, f, None
            v = args[i]
            i += 1
            if v is UNDEF:
                eng.report("mem.uninit", st, f"{what}: prints an uninitialised value")
                return False, f, None
            if conv == b"s":
                if v.__class__ is int and v == 0:
                    eng.report("mem.null", st, f"{what}: null pointer printed with %s")
                    return False, f, None
                if v.__class__ is not Ptr:
                    eng.report("fmt.args", st, f"{what}: %s does not get a string")
                    return False, f, None
                if prec is None and not self.check_str(eng, st, v, what + " %s"):
                    return False, f, None
                if prec is not None and not eng.check_ptr(st, v, 1, what + " %.*s"):
                    return False, f, None
                c = self.cstr(st, v)
                if mx is not None:
                    mx = mx + len(c) if c is not None else None
            else:
                if v.__class__ in (Ptr,) and conv in b"diuxXc":
                    eng.report("fmt.args", st, f"{what}: %{conv.decode()} gets a pointer")
                    return False, f, None
                if mx is not None:
                    if v.__class__ in (int, Lin):
                        lo, hi = st.rng(v)
                        if lo < -(1 << 31) or hi >= (1 << 32):
                            lo, hi = -(1 << 31), (1 << 32) - 1
                        mx += max(len(str(lo)), len(str(hi)))
                    else:
                        mx += 24
        if mx is not None:
            mx += len(f) - pos
        return True, f, mx

    def f_printf(self, eng, st, ins, a):
        ok, f, n = self.check_fmt(eng, st, a[0], a[1:], "printf")
        return [(st, st.fresh(-1, 1 << 20))] if ok else []

    def f_fprintf(self, eng, st, ins, a):
        ok, f, n = self.check_fmt(eng, st, a[1], a[2:], "fprintf")
        return [(st, st.fresh(-1, 1 << 20))] if ok else []

    def f_dprintf(self, eng, st, ins, a):
        ok, f, n = self.check_fmt(eng, st, a[1], a[2:], "dprintf")
        return [(st, st.fresh(-1, 1 << 20))] if ok else []

    def f_puts(self, eng, st, ins, a):
        return [(st, st.fresh(-1, 1 << 20))] if self.check_str(eng, st, a[0], "puts") else []

    def f_fputs(self, eng, st, ins, a):
        return self.f_puts(eng, st, ins, a)

    def f_fputc(self, eng, st, ins, a):
        return [(st, st.fresh(-1, 255))]

    def f_perror(self, eng, st, ins, a):
        return [(st, None)] if self.check_str(eng, st, a[0], "perror") else []

    def f_vfprintf(self, eng, st, ins, a):
        return [(st, st.fresh(-1, 1 << 20))]

    def f_fflush(self, eng, st, ins, a):
        return [(st, 0)]

    def f_snprintf(self, eng, st, ins, a):
        d, n, fp = a[0], a[1], a[2]
        ok, f, mx = self.check_fmt(eng, st, fp, a[3:], "snprintf")
        if not ok:
            return []
        if n != 0:
            if not eng.check_ptr(st, d, n, "snprintf target", True):
                return []
            eng.drop_content(st, d.oid)
            st.havoc(d.oid, d.off, n)
            if d.off == 0:
                fits = mx is not None and n.__class__ is int and mx < n
                if f == b"%s" and len(a) > 3:
                    c = self.content_mk(st, a[3])
                    L = self.length(eng, st, a[3])
                    if c is not None and st.ge0(sub(add(n, -1), L)):
                        st.setg(d.oid, "$str", c)
                        return [(st, L)]
                st.setg(d.oid, "$str", ("fmt", f or b"", tuple(a[3:])) if fits else ("atom", st.fresh(0, 1 << 62, kind="str")))
        return [(st, st.fresh(0, mx if mx is not None else 1 << 20))]

    def f__logf(self, eng, st, ins, a):
        ok, f, n = self.check_fmt(eng, st, a[1], a[2:], "log")
        return [(st, None)] if ok else []

    def f_log_init(self, eng, st, ins, a):
        return [(st, None)]

    def f_libseat_set_log_level(self, eng, st, ins, a):
        return [(st, None)]

    # process ---------------------------------------------------
    def f___errno_location(self, eng, st, ins, a):
        return [(st, Ptr(eng.errno_oid, 0))]

    def f___assert_fail(self, eng, st, ins, a):
        e = self.cstr(st, a[0])
        eng.report("abort", st, "assertion can fail: " + (e.decode() if e else "?"), key=e)
        return []

    def f_abort(self, eng, st, ins, a):
        eng.report("abort", st, "abort() is reachable")
        return []

    def f_exit(self, eng, st, ins, a):
        eng.on_exit(st, ("exit", a[0]))
        return []

    def f__exit(self, eng, st, ins, a):
        eng.on_exit(st, ("_exit", a[0]))
        return []

    def f_getpid(self, eng, st, ins, a):
        return [(st, st.fresh(1, 1 << 22))]

    def f_getuid(self, eng, st, ins, a):
        return [(st, st.fresh(0, (1 << 32) - 2))]

    f_getgid = f_getuid
    f_geteuid = f_getuid
    f_getegid = f_getuid

    def f_getenv(self, eng, st, ins, a):
        n = self.cstr(st, a[0])
        fixed = eng.opts.get("env", {})
        if n in fixed:
            v = fixed[n]
            if v is None:
                return [(st, 0)]
            oid = st.new("ext", "environment variable " + n.decode(), None, "sym")
            st.mem[oid].ghost["$str"] = ("const", v)
            return [(st, Ptr(oid, 0))]
        s = st.copy()
        oid = st.new("ext", "environment variable " + (n or b"?").decode(), None, "sym")
        st.mem[oid].ghost["$str"] = ("atom", st.fresh(0, 1 << 62, kind="str", facts=[("env", n)]))
        return [(s, 0), (st, Ptr(oid, 0))]

    def f_clock_gettime(self, eng, st, ins, a):
        if not eng.check_ptr(st, a[1], 16, "clock_gettime", True):
            return []
        st.setcell(a[1].oid, a[1].off, 8, st.fresh(0, 1 << 40))
        st.setcell(a[1].oid, a[1].off + 8, 8, st.fresh(0, 999999999))
        return [(st, 0)]

    def f_isatty(self, eng, st, ins, a):
        return [(st, st.fresh(0, 1))]

    # descriptors -----------------------------------------------
    def on_close(self, eng, st, a, info):
        pass

    def f_close(self, eng, st, ins, a):
        v = st.norm(a[0])
        if v is UNDEF:
            eng.report("mem.uninit", st, "close of an uninitialised descriptor")
            return []
        if v.__class__ is int:
            if v < 0:
                self.set_errno(eng, st, EBADF)
                return [(st, -1)]
            if v <= 2:
                eng.report("fd.std", st, f"close of standard descriptor {v}")
            return [(st, 0)]
        at = self.fdatom(st, v)
        if at is None:
            lo, hi = st.rng(v)
            eng.count("closes")
            return self.close_other(eng, st, v)
        if at not in st.fds:
            eng.report("fd.double", st, "close of a descriptor that was already closed")
            return [(st, -1)]
        info = st.fds.pop(at)
        self.on_close(eng, st, at, info)
        eng.count("closes")
        return [(st, 0)]

    def close_other(self, eng, st, v):
        return [(st, st.fresh(-1, 0))]

    def io_fail(self, eng, st, cls="io", ne=()):
        return [(self.failed(eng, st, ne=ne), -1)] if self.ok(eng, cls) else []

    def bad(self, eng, st):
        self.set_errno(eng, st, EBADF)
        return [(st, -1)]

    def f_fcntl(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "fcntl")
        if i == "bad":
            return self.bad(eng, st)
        cmd = a[1]
        out = self.io_fail(eng, st, "fcntl")
        at = self.fdatom(st, a[0])
        r = 0
        if cmd == 1:
            r = i[1] if i else st.fresh(0, 1)
        elif cmd == 3:
            r = (2 | (0o4000 if i[2] else 0)) if i else st.fresh(0, (1 << 30))
        elif cmd == 2 and i:
            v = a[2]
            if v.__class__ is int:
                st.fds[at] = (i[0], v & 1, i[2], i[3])
        elif cmd == 4 and i:
            v = a[2]
            if v.__class__ is int:
                st.fds[at] = (i[0], i[1], 1 if v & 0o4000 else 0, i[3])
        elif cmd in (0, 1030):
            r = self.newfd(st, "dup", 1 if cmd == 1030 else 0, i[2] if i else 0, (atom(at),) if i else ())
        out.append((st, r))
        return out

    def f_dup(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "dup")
        if i == "bad":
            return self.bad(eng, st)
        out = self.io_fail(eng, st, "dup")
        at = self.fdatom(st, a[0])
        v = self.newfd(st, "dup", 0, i[2] if i else 0, (atom(at),) if i else ())
        out.append((st, v))
        return out

    def f_open(self, eng, st, ins, a):
        p, fl = a[0], a[1]
        if not self.check_str(eng, st, p, "open"):
            return []
        return self.opened(eng, st, p, fl)

    def opened(self, eng, st, p, fl):
        out = self.io_fail(eng, st, "open")
        fl = fl if fl.__class__ is int else 0
        v = self.newfd(st, "file", 1 if fl & 0o2000000 else 0, 1 if fl & 0o4000 else 0, ())
        out.append((st, v))
        return out

    def f_realpath(self, eng, st, ins, a):
        p, d = a
        if not self.check_str(eng, st, p, "realpath"):
            return []
        out = []
        if self.ok(eng, "realpath"):
            out.append((self.failed(eng, st, note="realpath fails"), 0))
        c = ("atom", st.fresh(0, 1 << 62, kind="str", facts=[("canonical",)]))
        if d.__class__ is int and d == 0:
            for s, v in self.alloc(eng, st, 4096, "sym", "realpath"):
                if v.__class__ is Ptr:
                    s.setg(v.oid, "$str", c)
                out.append((s, v))
            return out
        if not eng.check_ptr(st, d, 4096, "realpath result", True):
            return out
        eng.drop_content(st, d.oid)
        st.havoc(d.oid, d.off, 4096)
        if d.off == 0:
            st.setg(d.oid, "$str", c)
        out.append((st, d))
        return out

    def f_socket(self, eng, st, ins, a):
        out = self.io_fail(eng, st, "socket")
        t = a[1] if a[1].__class__ is int else 0
        out.append((st, self.newfd(st, "sock", 1 if t & 0o2000000 else 0, 1 if t & 0o4000 else 0, ())))
        return out

    def f_socketpair(self, eng, st, ins, a):
        out = self.io_fail(eng, st, "socket")
        if not eng.check_ptr(st, a[3], 8, "socketpair", True):
            return []
        t = a[1] if a[1].__class__ is int else 0
        for k in (0, 1):
            v = self.newfd(st, "conn", 1 if t & 0o2000000 else 0, 1 if t & 0o4000 else 0, ())
            st.setcell(a[3].oid, a[3].off + 4 * k, 4, v)
        out.append((st, 0))
        return out

    def f_pipe(self, eng, st, ins, a):
        out = self.io_fail(eng, st, "pipe")
        if not eng.check_ptr(st, a[0], 8, "pipe", True):
            return []
        fl = a[1] if len(a) > 1 and a[1].__class__ is int else 0
        for k, role in ((0, "piper"), (1, "pipew")):
            v = self.newfd(st, role, 1 if fl & 0o2000000 else 0, 1 if fl & 0o4000 else 0, ())
            st.setcell(a[0].oid, a[0].off + 4 * k, 4, v)
        out.append((st, 0))
        return out

    f_pipe2 = f_pipe

    def f_connect(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "connect")
        if i == "bad":
            return self.bad(eng, st)
        if not eng.check_ptr(st, a[1], a[2], "connect address"):
            return []
        out = self.io_fail(eng, st, "connect")
        at = self.fdatom(st, a[0])
        if i:
            st.fds[at] = ("conn",) + i[1:]
        out.append((st, 0))
        return out

    def f_bind(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "bind")
        if i == "bad":
            return self.bad(eng, st)
        if not eng.check_ptr(st, a[1], a[2], "bind address"):
            return []
        out = self.io_fail(eng, st, "bind")
        out.append((st, 0))
        return out

    def f_listen(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "listen")
        if i == "bad":
            return self.bad(eng, st)
        out = self.io_fail(eng, st, "listen")
        at = self.fdatom(st, a[0])
        if i:
            st.fds[at] = ("listen",) + i[1:]
        out.append((st, 0))
        return out

    def f_accept(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "accept")
        if i == "bad":
            return self.bad(eng, st)
        out = self.io_fail(eng, st, "accept")
        fl = a[3] if len(a) > 3 and a[3].__class__ is int else 0
        out.append((st, self.newfd(st, "conn", 1 if fl & 0o2000000 else 0, 1 if fl & 0o4000 else 0, ())))
        return out

    f_accept4 = f_accept

    def f_shutdown(self, eng, st, ins, a):
        return self.io_fail(eng, st) + [(st, 0)]

    def f_getsockopt(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "getsockopt")
        if i == "bad":
            return self.bad(eng, st)
        out = self.io_fail(eng, st, "getsockopt")
        if not eng.check_ptr(st, a[4], 4, "getsockopt length", True):
            return out
        n = st.getcell(a[4].oid, a[4].off, 4)
        if not eng.check_ptr(st, a[3], n, "getsockopt value", True):
            return out
        if n == 12:
            for k in (0, 4, 8):
                st.setcell(a[3].oid, a[3].off + k, 4, st.fresh(0, (1 << 31) - 1))
        else:
            st.havoc(a[3].oid, a[3].off, n)
        out.append((st, 0))
        return out

    def f_unlink(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "unlink"):
            return []
        return self.io_fail(eng, st, "unlink") + [(st, 0)]

    def f_chmod(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "chmod"):
            return []
        return self.io_fail(eng, st, "chmod") + [(st, 0)]

    def f_chown(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "chown"):
            return []
        return self.io_fail(eng, st, "chown") + [(st, 0)]

    def f_lstat(self, eng, st, ins, a):
        if not self.check_str(eng, st, a[0], "lstat"):
            return []
        out = self.io_fail(eng, st, "lstat")
        if not eng.check_ptr(st, a[1], 144, "lstat", True):
            return out
        st.havoc(a[1].oid, a[1].off, 144)
        st.setcell(a[1].oid, a[1].off + 24, 4, st.fresh(0, (1 << 32) - 1, facts=[("st_mode",)]))
        out.append((st, 0))
        return out

    f_stat = f_lstat

    def f_write(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "write")
        if i == "bad":
            return self.bad(eng, st)
        if not eng.check_ptr(st, a[1], a[2], "write buffer"):
            return []
        out = self.io_fail(eng, st, "write")
        r = st.fresh(0, max(0, st.rng(a[2])[1]))
        out.append((st, r))
        return out

    def f_read(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "read")
        if i == "bad":
            return self.bad(eng, st)
        if not eng.check_ptr(st, a[1], a[2], "read buffer", True):
            return []
        out = self.io_fail(eng, st, "read")
        st.havoc(a[1].oid, a[1].off, a[2])
        out.append((st, st.fresh(0, max(0, st.rng(a[2])[1]))))
        return out

    def f_sigemptyset(self, eng, st, ins, a):
        if not eng.check_ptr(st, a[0], 128, "sigemptyset", True):
            return []
        st.setcell(a[0].oid, a[0].off, 128, 0)
        return [(st, 0)]

    # ------------------------------------------------------------ calls with no model
    def callback(self, eng, st, ins, cbid, vals):
        return self.unknown(eng, st, ins, "callback:" + str(cbid), vals)

    def unknown(self, eng, st, ins, name, vals):
        eng.unmodelled.add(name)
        for v in vals:
            if v.__class__ is Ptr and v.oid in st.mem and st.mem[v.oid].alive and not st.mem[v.oid].const:
                o = st.mem[v.oid]
                if o.kind in ("stack",) and o.size.__class__ is int and o.size <= 4096:
                    eng.drop_content(st, v.oid)
                    st.havoc(v.oid, 0, o.size)
        t = ins.ty
        if t is None or t.k == "void":
            return [(st, None)]
        if t.k == "ptr":
            s = st.copy()
            oid = st.new("ext", "result of " + name, None, "sym")
            return [(s, 0), (st, Ptr(oid, 0))]
        if t.k == "i":
            return [(st, st.unk(max(1, t.n // 8)))]
        return [(st, FPV)]
