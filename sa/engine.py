"""Path-sensitive, interprocedural abstract interpreter over the IR.

States are merged (deduplicated on a canonical form) at loop heads and function returns, so every
analysis is a fixpoint over a finite set of abstract states.  No code is executed and no solver is used."""
import collections, gc, itertools, os, pickle, selectors, sys, time, zlib
from dom import *
from ir import IRError


class Stop(Exception):
    pass


class AnalysisError(Exception):
    pass


class Obj:
    __slots__ = ("kind", "tag", "size", "cells", "fill", "alive", "tyname", "ghost", "origin", "const", "tmpl", "raw")

    def __init__(self, kind, tag, size, fill, tyname=None, origin=None):
        self.kind, self.tag, self.size, self.fill, self.tyname, self.origin = kind, tag, size, fill, tyname, origin
        self.cells = {}
        self.alive = True
        self.ghost = {}
        self.const = False
        self.tmpl = self.raw = None

    def copy(self):
        o = Obj.__new__(Obj)
        o.kind, o.tag, o.size, o.fill, o.alive, o.tyname = self.kind, self.tag, self.size, self.fill, self.alive, self.tyname
        o.origin, o.const, o.tmpl = self.origin, self.const, None
        o.raw = None
        o.cells = dict(self.cells)
        o.ghost = dict(self.ghost)
        return o


class Frame:
    __slots__ = ("fn", "blk", "prev", "ip", "regs", "parent", "retins", "allocas", "post", "depth", "nf", "vis", "tm", "tr")

    def __init__(self, fn, parent, retins, post):
        self.fn, self.parent, self.retins, self.post = fn, parent, retins, post
        self.blk, self.prev, self.ip = fn.entry, None, 0
        self.regs = {}
        self.allocas = ()
        self.nf = 0
        self.vis = 0
        self.tm = self.tr = None
        self.depth = 0 if parent is None else parent.depth + 1

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.blk, f.prev, f.ip, f.parent, f.retins, f.allocas, f.post, f.depth = self.fn, self.blk, self.prev, \
            self.ip, self.parent, self.retins, self.allocas, self.post, self.depth
        f.regs = dict(self.regs)
        f.nf, f.vis = self.nf, self.vis
        f.tm = f.tr = None
        return f


class State(Num):
    __slots__ = ("eng", "mem", "atoms", "cons", "sub", "mon", "fds", "trail", "fr", "memo", "ret", "own", "nf", "old")

    def copy(self):
        s = State.__new__(State)
        s.eng = self.eng
        s.mem = dict(self.mem)
        s.atoms = dict(self.atoms)
        s.cons, s.sub = self.cons, self.sub
        s.mon = dict(self.mon)
        s.fds = dict(self.fds)
        s.trail = self.trail
        s.fr = self.fr.copy() if self.fr is not None else None
        s.memo = dict(self.memo)
        s.ret = self.ret
        s.own = set()
        self.own = set()
        self.nf += 1
        s.nf = self.nf
        s.old = self.old
        return s

    # ---- trail
    def note(self, txt):
        f = self.fr
        loc = ""
        if f is not None:
            b = f.blk
            ln = b.ins[f.ip].line if f.ip < len(b.ins) else 0
            loc = f"{self.eng.short(f.fn.file)}:{ln} {f.fn.src}"
        self.trail = (self.trail, loc, txt)

    def trail_list(self):
        out = []
        t = self.trail
        while t is not None:
            out.append((t[1], t[2]))
            t = t[0]
        out.reverse()
        return out

    # ---- objects
    def new(self, kind, tag, size, fill, tyname=None):
        oid = self.eng.newoid()
        o = Obj(kind, tag, size, fill, tyname, self.here())
        self.mem[oid] = o
        self.own.add(oid)
        return oid

    def here(self):
        f = self.fr
        if f is None:
            return ""
        b = f.blk
        ln = b.ins[f.ip].line if f.ip < len(b.ins) else 0
        return f"{self.eng.short(f.fn.file)}:{ln}"

    def w(self, oid):
        """writable object"""
        o = self.mem[oid]
        if oid not in self.own:
            o = o.copy()
            self.mem[oid] = o
            self.own.add(oid)
        o.tmpl = o.raw = None
        return o

    def g(self, oid, k, d=None):
        return self.mem[oid].ghost.get(k, d)

    def setg(self, oid, k, v):
        self.w(oid).ghost[k] = v

    # ---- raw cell access (const offset)
    def getcell(self, oid, off, n, signed_hint=None):
        o = self.mem[oid]
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            return self.norm(c[1])
        cover = []
        for co, (cn, cv) in o.cells.items():
            if co < off + n and off < co + cn:
                cover.append((co, cn, cv))
        if not cover:
            return self.fillval(oid, off, n)
        cover.sort()
        co, cn, cv = cover[0]
        if len(cover) == 1 and co <= off and off + n <= co + cn:
            cv = self.norm(cv)
            if cv.__class__ is int:
                return self._ext(cv >> (8 * (off - co)), n)
            if cv is UNDEF:
                return UNDEF
            if cv.__class__ is Lin and off == co:
                return cv  # truncation: same residue class
            if cv.__class__ is Lin:
                key = ("sh", cv, off - co, n)
                v = self.memo.get(key)
                if v is None:
                    v = self.memo[key] = self.fresh(-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
                return v
            return self.unk(n)
        # composite of constants / fill
        r = 0
        pos = off
        ok = True
        bytesv = {}
        for co, cn, cv in cover:
            cv = self.norm(cv)
            if cv.__class__ is not int:
                ok = False
                break
            for i in range(cn):
                if off <= co + i < off + n:
                    bytesv[co + i] = (cv >> (8 * i)) & 255
        if ok:
            for i in range(off, off + n):
                if i not in bytesv:
                    if o.fill == "zero":
                        bytesv[i] = 0
                    elif o.fill == "undef":
                        return UNDEF
                    else:
                        ok = False
        if ok:
            for i in range(n):
                r |= bytesv[off + i] << (8 * i)
            return self._ext(r, n)
        if any(cv is UNDEF for _, _, cv in cover):
            return UNDEF
        # linear composition of cells (little endian), each resolved unsigned if possible
        acc = 0
        pos = off
        for co, cn, cv in cover:
            if co != pos or co + cn > off + n:
                acc = None
                break
            cv = self.norm(cv)
            if cv.__class__ is Lin:
                lo, hi = self.irng(cv)
                if lo < 0:
                    acc = None
                    break
            elif cv.__class__ is int:
                cv &= (1 << (8 * cn)) - 1
            else:
                acc = None
                break
            acc = add(acc, scale(cv, 1 << (8 * (co - off))))
            pos = co + cn
        if acc is not None and pos == off + n:
            return acc
        return self.unk(n)

    def _ext(self, v, n):
        if n > 8:
            return v if v == 0 else v
        v &= (1 << (8 * n)) - 1
        if v >> (8 * n - 1):
            v -= 1 << (8 * n)
        return v

    def unk(self, n):
        return self.fresh(-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)

    def fillval(self, oid, off, n):
        o = self.mem[oid]
        if o.fill == "zero":
            return 0
        if o.fill == "undef":
            return UNDEF
        if o.fill == "lazy":
            return self.eng.lazy_global(self, oid, off, n)
        # sym: materialise lazily from debug info
        v = None
        if o.tyname:
            v = self.eng.typed_fresh(self, o, off, n)
        if v is None:
            v = self.unk(n)
        self.w(oid).cells[off] = (n, v)
        return v

    def setcell(self, oid, off, n, v):
        o = self.w(oid)
        c = o.cells.get(off)
        if c is not None and c[0] == n:
            o.cells[off] = (n, v)
            return
        over = [(co, cn, cv) for co, (cn, cv) in o.cells.items() if co < off + n and off < co + cn]
        for co, cn, cv in over:
            del o.cells[co]
            cv = self.norm(cv)
            for a, b in ((co, min(off, co + cn)), (max(off + n, co), co + cn)):
                if a < b:
                    if cv.__class__ is int:
                        o.cells[a] = (b - a, self._ext(cv >> (8 * (a - co)), b - a))
                    elif cv is UNDEF:
                        o.cells[a] = (b - a, UNDEF)
                    elif b - a <= 8:
                        o.cells[a] = (b - a, self.unk(b - a))
                    else:
                        for i in range(a, b):
                            o.cells[i] = (1, self.unk(1))
        o.cells[off] = (n, v)

    def havoc(self, oid, off, n):
        """range becomes unknown; off/n may be symbolic -> conservative range"""
        o = self.w(oid)
        lo = self.irng(off)[0] if off.__class__ is Lin else off
        if n.__class__ is Lin or off.__class__ is Lin:
            hi = self.irng(add(off, n))[1]
        else:
            hi = off + n
        size = o.size if o.size.__class__ is int else None
        if size is not None:
            hi = min(hi, size)
        for co in [co for co, (cn, cv) in o.cells.items() if co < hi and lo < co + cn]:
            cn, cv = o.cells.pop(co)
            if co < lo:
                o.cells[co] = (lo - co, self.unk(min(lo - co, 8)))
            if co + cn > hi:
                cv = self.norm(cv)
                if cv.__class__ is int:
                    o.cells[hi] = (co + cn - hi, self._ext(cv >> (8 * (hi - co)), co + cn - hi))
                else:
                    o.cells[hi] = (co + cn - hi, self.unk(min(8, co + cn - hi)))
        if o.fill != "sym":
            if size is not None and lo <= 0 and hi >= size:
                o.fill = "sym"
            elif o.fill == "undef" or o.fill == "zero":
                o.cells[lo] = (max(1, hi - lo), self.unk(min(8, max(1, hi - lo)))) if hi > lo else (1, self.unk(1))


def atoms_in(items, acc):
    stack = list(items)
    while stack:
        x = stack.pop()
        c = x.__class__
        if c is Lin:
            for a, _ in x.t:
                acc.add(a)
        elif c is Ptr:
            if x[1].__class__ is Lin:
                stack.append(x[1])
        elif c is tuple or c is list or c is frozenset:
            stack += x
        elif c is Cond:
            stack += (x.a, x.b)


NOOLD = (frozenset(), frozenset(), {})


class Engine:
    MAXVISIT = 400

    def __init__(self, prog, models, name="", opts=None):
        self.prog = prog
        self.name = name
        self.models = models
        self.opts = opts or {}
        self._atom = itertools.count(1)
        self._oid = itertools.count(1)
        self.reports = {}
        self.stats = {"states": 0, "steps": 0, "merged": 0, "paths": 0, "forks": 0}
        self.visited_fns = {}
        self.callsites = {}
        self.unmodelled = set()
        self.truncated = set()
        self.counts = {}
        self.monitors = []
        self.live_cache = {}
        self.globals_of = {}
        self.repo = self.opts.get("repo", "/repo")
        self.time0 = time.time()
        self.deadline = None
        self.stop_on = None
        self.const_objs = {}
        self.gname = {}
        self.seen_ev = set()
        self.pending = collections.deque()

    def newatom(self):
        return next(self._atom)

    def newoid(self):
        return next(self._oid)

    def short(self, f):
        r = self.repo.rstrip("/") + "/"
        i = f.find(r)
        if i >= 0:
            return f[i + len(r):]
        return f.split("../")[-1].split("repo/")[-1]

    def count(self, k, n=1):
        self.counts[k] = self.counts.get(k, 0) + n

    # ---- state creation
    def initial(self):
        s = State.__new__(State)
        s.eng = self
        s.mem = {}
        s.atoms = {}
        s.cons = ()
        s.sub = {}
        s.mon = {}
        s.fds = {}
        s.trail = None
        s.fr = None
        s.memo = {}
        s.ret = None
        s.own = set()
        s.nf = 0
        s.old = NOOLD
        e = s.new("errno", "errno", 4, "sym")
        self.errno_oid = e
        s.mem[e].cells[0] = (4, s.fresh(0, 4095))
        return s

    def global_ptr(self, st, name, off=0):
        if name in self.prog.funcs:
            return Fn(name)
        oid = self.globals_of.get(name)
        if oid is None:
            oid = self.globals_of[name] = -1 - zlib.crc32(name.encode())
            self.gname[oid] = name
        if oid not in st.mem:
            g = self.prog.globals.get(name)
            if g is None:
                # external function or data symbol
                if name in self.ext_data:
                    o = Obj("ext", name, None, "sym", None, "")
                    st.mem[oid] = o
                    return Ptr(oid, off)
                del self.globals_of[name]
                return Fn(name)
            if g.const and name in self.const_objs:
                o = st.mem[oid] = self.const_objs[name]
                for n, x in o.cells.values():
                    if x.__class__ is Ptr and x.oid not in st.mem:
                        self.global_ptr(st, self.gname[x.oid])
                return Ptr(oid, off)
            o = Obj("global", name, g.size, "zero", None, "")
            o.const = g.const
            if g.external or g.init is None:
                o.fill = "sym"
            else:
                st.mem[oid] = o
                st.own.add(oid)
                self.init_global(st, o, g)
            st.mem[oid] = o
            if g.const:
                self.const_objs[name] = o
            else:
                st.own.add(oid)
        return Ptr(oid, off)

    ext_data = {"stderr", "stdout", "stdin", "environ", "optarg", "optind", "opterr", "optopt"}

    def init_global(self, st, o, g):
        m = g.mod

        def put(off, ty, v):
            ty = m.resolve_st(ty)
            if isinstance(v, int):
                n = m.sizeof(ty)
                if v != 0:
                    o.cells[off] = (n, v)
                return
            if v[0] == "g":
                o.cells[off] = (8, ("gref", v[1], v[2]))
            elif v[0] == "agg":
                for i, (t, x) in enumerate(v[1]):
                    po, _ = m.step(ty, i)
                    put(off + po, t, x)
            elif v[0] == "str":
                s = v[1]
                if len(s) <= 4096:
                    o.ghost["$cstr"] = o.ghost.get("$cstr", ()) + ((off, s),)
                    for i, ch in enumerate(s):
                        if ch:
                            o.cells[off + i] = (1, ch if ch < 128 else ch - 256)
            elif v[0] == "undef":
                pass
            elif v[0] == "zero":
                pass

        put(0, g.ty, g.init)
        # resolve references eagerly
        for off, (n, v) in list(o.cells.items()):
            if isinstance(v, tuple) and not isinstance(v, Ptr) and v and v[0] == "gref":
                o.cells[off] = (8, self.global_ptr(st, v[1], v[2]))

    def lazy_global(self, st, oid, off, n):
        return 0

    def typed_fresh(self, st, o, off, n):
        s = self.prog.structs.get(o.tyname)
        if not s:
            return None
        base = 0
        tn = o.tyname
        cur = off
        for _ in range(4):
            s = self.prog.structs.get(tn)
            if not s:
                return None
            for fname, (fo, fs, ti) in s[1].items():
                if fo <= cur < fo + fs:
                    if ti[0] == "struct":
                        cur -= fo
                        tn = ti[2]
                        break
                    if cur != fo or fs != n:
                        return None
                    if ti[0] == "int":
                        if ti[2] == "bool":
                            return st.fresh(0, 1)
                        if ti[2] == "u":
                            return st.fresh(0, (1 << (8 * n)) - 1)
                        return st.fresh(-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1)
                    if ti[0] == "enum":
                        vs = [v for _, v in ti[3]] or [0]
                        return st.fresh(min(vs), max(vs))
                    if ti[0] == "ptr":
                        # opaque valid pointer to a lazily typed external object
                        oid2 = st.new("ext", f"{o.tag}.{fname}", None, "sym", ti[1])
                        return Ptr(oid2, 0)
                    return None
            else:
                return None
        return None

    # ---- reporting
    def report(self, kind, st, msg, key=None):
        f = st.fr
        loc, fn = getattr(self, "exit_at", ("", ""))
        if f is not None:
            b = f.blk
            ln = b.ins[f.ip].line if f.ip < len(b.ins) else 0
            loc, fn = f"{self.short(f.fn.file)}:{ln}", f.fn.src
        k = (kind, loc, fn, key if key is not None else msg)
        if k not in self.reports:
            stack = []
            p = f
            while p is not None:
                stack.append(p.fn.src)
                p = p.parent
            self.reports[k] = {"kind": kind, "loc": loc, "function": fn, "msg": msg, "stack": stack,
                               "trail": st.trail_list()[-60:]}

    # ---- operands
    def val(self, st, v):
        if v.__class__ is int:
            return v
        k = v[0]
        if k == "r":
            return st.norm(st.fr.regs[v[1]])
        if k == "g":
            return self.global_ptr(st, v[1], v[2])
        if k == "undef":
            return UNDEF
        if k == "zero":
            return 0
        if k == "fp":
            return FPV
        return UNDEF

    def norm_int(self, v, w, signed=True):
        v &= (1 << w) - 1
        if signed and w > 1 and v >> (w - 1):
            v -= 1 << w
        return v

    def resolve(self, st, v, w, signed):
        """list of (state, value) with value as a mathematical integer in the (un)signed w-bit range"""
        if v.__class__ is int:
            return [(st, self.norm_int(v, w, signed))]
        if v.__class__ is not Lin:
            return [(st, v)]
        M = 1 << w
        v = st.norm(v)
        if v.__class__ is int:
            return [(st, self.norm_int(v, w, signed))]
        if any(abs(k) >= M for _, k in v.t) or abs(v.c) >= 2 * M:
            v = mk(v.c % M if v.c >= M or v.c <= -M else v.c, {a: (k % M if abs(k) >= M else k) for a, k in v.t})
            if v.__class__ is int:
                return [(st, self.norm_int(v, w, signed))]
        tlo, thi = (-(M >> 1), (M >> 1) - 1) if signed else (0, M - 1)
        lo, hi = st.irng(v)
        if lo >= tlo and hi <= thi:
            return [(st, v)]
        lo, hi = st.rng(v)
        if lo >= tlo and hi <= thi:
            return [(st, v)]
        kmin, kmax = (lo - tlo) // M, (hi - tlo) // M
        if kmax - kmin > 3:
            key = ("res", v, w, signed)
            r = st.memo.get(key)
            if r is None:
                r = st.memo[key] = st.fresh(tlo, thi)
            return [(st, st.norm(r))]
        out = []
        for k in range(kmin, kmax + 1):
            s2 = st.copy() if k < kmax else st
            v2 = add(v, -k * M)
            if s2.assume_ge0(add(v2, -tlo)) and s2.assume_ge0(sub(thi, v2)):
                out.append((s2, s2.norm(v2)))
        return out

    # ---- conditions
    def assume(self, st, c, truth):
        """list of states in which the i1 value c has the given truth"""
        if c.__class__ is int:
            return [st] if bool(c & 1) == truth else []
        if c is UNDEF:
            self.report("mem.uninit", st, "branch depends on an uninitialised value")
            return []
        if c.__class__ is Cond:
            return self.assume_cmp(st, c.pred if truth else NEG[c.pred], c.a, c.b, c.w)
        if c.__class__ is Lin:
            out = []
            for s2, v in self.resolve(st, c, 1, False):
                if truth:
                    if s2.assume_eq0(add(v, -1)):
                        out.append(s2)
                else:
                    if s2.assume_eq0(v):
                        out.append(s2)
            return out
        if c.__class__ in (Ptr, Fn):
            return [st] if truth else []
        return [st]

    def assume_cmp(self, st, pred, a, b, w):
        a, b = st.norm(a), st.norm(b)
        if a is UNDEF or b is UNDEF:
            self.report("mem.uninit", st, "comparison of an uninitialised value")
            return []
        ca, cb = a.__class__, b.__class__
        if ca is Cond or cb is Cond:
            out = []
            for s2, av in self.concretize(st, a):
                for s3, bv in self.concretize(s2, b):
                    out += self.assume_cmp(s3, pred, av, bv, w)
            return out
        if a is FPV or b is FPV:
            return [st]
        if ca in (Ptr, Fn) or cb in (Ptr, Fn):
            if ca is Ptr and cb is Ptr:
                if a.oid == b.oid:
                    return self.assume_cmp(st, pred, a.off, b.off, 64)
                eq = False
            elif ca is Fn and cb is Fn:
                eq = a.name == b.name
            else:
                p, o = (a, b) if ca in (Ptr, Fn) else (b, a)
                eq = False
                if pred in ("ugt", "uge", "ult", "ule") and o == 0:
                    gt = pred in ("ugt", "uge") if p is a else pred in ("ult", "ule")
                    return [st] if gt else []
            if pred == "eq":
                return [st] if eq else []
            if pred == "ne":
                return [] if eq else [st]
            return [st]
        if pred in ("eq", "ne"):
            M = 1 << w
            pairs = None
            if ca is int or cb is int:
                x, c = (a, b) if cb is int else (b, a)
                if x.__class__ is int:
                    e = (x - c) % M == 0
                    return [st] if e == (pred == "eq") else []
                lo, hi = st.irng(x)
                if lo < -(M >> 1) or hi >= M:
                    lo, hi = st.rng(x)
                if lo >= -(M >> 1) and hi < (M >> 1):
                    pairs = [(st, x, self.norm_int(c, w, True))]
                elif lo >= 0 and hi < M:
                    pairs = [(st, x, self.norm_int(c, w, False))]
                else:
                    sg = lo < 0 or True
                    pairs = [(s2, v, self.norm_int(c, w, True)) for s2, v in self.resolve(st, x, w, True)]
            else:
                (l1, h1), (l2, h2) = st.irng(a), st.irng(b)
                if (l1 >= 0 and l2 >= 0 and h1 < M and h2 < M) or \
                        (l1 >= -(M >> 1) and l2 >= -(M >> 1) and h1 < (M >> 1) and h2 < (M >> 1)):
                    pairs = [(st, a, b)]
                else:
                    d = sub(a, b)
                    if d.__class__ is Lin:
                        l, h = st.rng(d)
                        if l > -M and h < M:
                            pairs = [(st, d, 0)]
                    else:
                        pairs = [(st, d % M, 0)]
                    if pairs is None:
                        pairs = []
                        for s2, x in self.resolve(st, a, w, False):
                            for s3, y in self.resolve(s2, b, w, False):
                                pairs.append((s3, s3.norm(x), s3.norm(y)))
            out = []
            for s2, x, y in pairs:
                d = sub(x, y)
                if pred == "eq":
                    if self.fd_distinct(s2, x, y):
                        continue
                    if s2.assume_eq0(d):
                        out.append(s2)
                else:
                    out += s2.assume_ne0(d)
            return out
        signed = pred[0] == "s"
        out = []
        for s2, x in self.resolve(st, a, w, signed):
            for s3, y in self.resolve(s2, b, w, signed):
                x, y = s3.norm(x), s3.norm(y)
                d = sub(x, y)
                op = pred[1:]
                if op == "lt":
                    e = sub(-1, d)
                elif op == "le":
                    e = sub(0, d)
                elif op == "gt":
                    e = add(d, -1)
                else:
                    e = d
                if s3.assume_ge0(e):
                    out.append(s3)
        return out

    def fd_distinct(self, st, x, y):
        if x.__class__ is Lin and y.__class__ is Lin and x != y and x.c == 0 and y.c == 0 and len(x.t) == 1 and len(y.t) == 1:
            i, j = st.atoms.get(x.t[0][0]), st.atoms.get(y.t[0][0])
            return i is not None and j is not None and i.kind == "fd" and j.kind == "fd"
        return False

    def concretize(self, st, v):
        """turn a deferred condition into 0/1 (forking)"""
        if v.__class__ is not Cond:
            return [(st, v)]
        out = []
        s1 = st.copy()
        for s in self.assume(s1, v, True):
            out.append((s, 1))
        for s in self.assume(st, v, False):
            out.append((s, 0))
        return out

    def fork_cond(self, st, v):
        """[(state, bool)]"""
        if v.__class__ is int:
            return [(st, bool(v & 1))]
        out = []
        s1 = st.copy()
        for s in self.assume(s1, v, True):
            out.append((s, True))
        for s in self.assume(st, v, False):
            out.append((s, False))
        return out

    # ---- memory checks
    def check_ptr(self, st, p, n, what, write=False):
        """validate an access of n bytes (int or Lin) at p; returns True if the access may proceed"""
        if p is UNDEF:
            self.report("mem.uninit", st, f"{what} through an uninitialised pointer")
            return False
        if p.__class__ is int or p.__class__ is Lin:
            lo, hi = st.rng(p)
            if p.__class__ is int and p == 0 or (lo <= 0 <= hi):
                self.report("mem.null", st, f"{what} through a null pointer")
            else:
                self.report("mem.wild", st, f"{what} through an invalid pointer")
            return False
        if p.__class__ is Fn:
            self.report("mem.wild", st, f"{what} through a function pointer")
            return False
        o = st.mem.get(p.oid)
        if o is None:
            self.report("mem.uaf", st, f"{what} of a local variable that no longer exists")
            return False
        if not o.alive:
            self.report("mem.uaf", st, f"{what} of {o.tag} after it was freed", key=("uaf", o.tag))
            return False
        if o.size is not None:
            end = sub(o.size, add(p.off, n))
            r1 = st.ge0(p.off)
            r2 = st.ge0(end)
            if not (r1 and r2):
                self.report("mem.oob", st, f"{what} of {n if n.__class__ is int else 'up to ' + str(st.rng(n)[1])} bytes at offset "
                            f"{p.off if p.off.__class__ is int else list(st.rng(p.off))} is not within {o.tag} "
                            f"({o.size if o.size.__class__ is int else st.rng(o.size)} bytes)", key=("oob", o.tag))
                return False
        if write and o.const:
            self.report("mem.const", st, f"write to constant {o.tag}")
            return False
        return True

    def load(self, st, p, n, what="read"):
        """[(state, value)]"""
        if not self.check_ptr(st, p, n, what):
            return []
        off = p.off
        if off.__class__ is Lin:
            off = st.norm(off)
        if off.__class__ is int:
            return [(st, st.getcell(p.oid, off, n))]
        return self.load_sym(st, p.oid, off, n)

    def load_sym(self, st, oid, off, n):
        lo, hi = st.rng(off)
        o = st.mem[oid]
        # enumerate feasible stride-n positions when few
        k = off.t[0][1] if len(off.t) == 1 else None
        if k is not None and abs(k) >= 1:
            cnt = (hi - lo) // abs(k) + 1
            if cnt <= self.opts.get("enum_index", 12):
                out = []
                for i in range(cnt):
                    pos = lo + i * abs(k)
                    s2 = st.copy()
                    if s2.assume_eq0(add(off, -pos)):
                        out.append((s2, s2.getcell(oid, pos, n)))
                return out
        if o.fill == "undef" and not o.cells:
            return [(st, UNDEF)]
        return [(st, st.unk(n))]

    def store(self, st, p, n, v, what="write"):
        if not self.check_ptr(st, p, n, what, True):
            return []
        off = st.norm(p.off) if p.off.__class__ is Lin else p.off
        if off.__class__ is int:
            if st.mem[p.oid].ghost:
                g = st.mem[p.oid].ghost
                if "$str" in g or "$strn" in g or "$strncpy" in g or "$cstr" in g:
                    # a terminator written at the end of a strncpy'd buffer keeps the copy
                    keep = g.get("$strncpy") if v.__class__ is int and v == 0 and n == 1 else None
                    self.drop_content(st, p.oid)
                    if keep is not None:
                        st.setg(p.oid, "$strncpy", keep)
            st.setcell(p.oid, off, n, v)
            return [st]
        lo, hi = st.rng(off)
        k = off.t[0][1] if len(off.t) == 1 else None
        if k is not None:
            cnt = (hi - lo) // abs(k) + 1
            if cnt <= self.opts.get("enum_index", 12):
                out = []
                for i in range(cnt):
                    s2 = st.copy()
                    if s2.assume_eq0(add(off, -(lo + i * abs(k)))):
                        s2.setcell(p.oid, lo + i * abs(k), n, v)
                        out.append(s2)
                return out
        self.drop_content(st, p.oid)
        st.havoc(p.oid, off, n)
        return [st]

    def drop_content(self, st, oid):
        o = st.w(oid)
        for k in ("$str", "$strn", "$strncpy"):
            o.ghost.pop(k, None)
        if "$cstr" in o.ghost:
            o.ghost["$mod"] = 1

    # ---- running
    def call(self, st, fname, args, ins=None, post=None):
        """push a frame for a program function; the caller frame stays at its call instruction"""
        f = self.prog.funcs[fname]
        fr = Frame(f, st.fr, ins, post)
        if fr.depth > 60:
            raise AnalysisError("call depth exceeded in " + fname)
        for nme, a in zip(f.params, args):
            fr.regs[nme] = a
        self.visited_fns[f.name] = f
        fr.nf = st.nf
        st.fr = fr
        return st

    def live_at(self, fr):
        """registers live at the current position of the frame"""
        k = (id(fr.blk), fr.ip)
        r = self.live_cache.get(k)
        if r is None:
            if fr.ip == 0:
                r = tuple(sorted(fr.blk.livein))
            else:
                f = fr.fn
                live = set()
                for s in fr.blk.succs:
                    b = f.blocks[s]
                    live |= b.livein - {p.res for p in b.phis}
                    for p in b.phis:
                        v = p.a[0].get(fr.blk.name)
                        if isinstance(v, tuple) and v[0] == "r":
                            live.add(v[1])

                def regs(v, acc):
                    if isinstance(v, tuple):
                        if len(v) == 2 and v[0] == "r":
                            acc.add(v[1])
                        else:
                            for x in v:
                                regs(x, acc)
                for ins in reversed(fr.blk.ins[fr.ip:]):
                    if ins.res:
                        live.discard(ins.res)
                    regs(ins.a, live)
                r = tuple(sorted(live))
            self.live_cache[k] = r
        return r

    def canon(self, st, full=False):
        """Hash of the state up to renaming of objects and atoms.  Objects and atoms that already existed when the current
        event started keep their names (siblings share them); with full=True everything is renamed."""
        old = NOOLD if full else st.old
        oldo, olda, base = old
        omap, amap = {}, {}
        oq, aq = [], []
        sub = st.sub

        def enc(v):
            c = v.__class__
            if c is int or c is str or v is None or c is bool:
                return v
            if c is Ptr:
                o, off = v
                if off.__class__ is not int:
                    off = enc(off)
                if o in oldo:
                    return (-4, o, off)
                i = omap.get(o)
                if i is None:
                    i = omap[o] = len(oq)
                    oq.append(o)
                return (-3, i, off)
            if c is Lin:
                if sub:
                    v = st.norm(v)
                    if v.__class__ is int:
                        return v
                o = []
                for a, k in v.t:
                    if a in olda:
                        o.append((-1 - a, k))
                        continue
                    i = amap.get(a)
                    if i is None:
                        i = amap[a] = len(aq)
                        aq.append(a)
                    o.append((i, k))
                return ("L", v.c, tuple(o))
            if c is Fn:
                return ("F", v.name)
            if c is Cond:
                return ("C", v.pred, enc(v.a), enc(v.b), v.w)
            if c is tuple or c is list:
                return tuple([enc(x) for x in v])
            if c is frozenset:
                return tuple(sorted((repr(enc(x)) for x in v)))
            return repr(v)

        out = []
        ap = out.append
        fr = st.fr
        top = True
        while fr is not None:
            t = None if top else fr.tm
            if t is None or t[0] is not old:
                regs = fr.regs
                refs = []
                o = [fr.fn.name, fr.blk.name, fr.ip]
                for r in self.live_at(fr):
                    if r in regs:
                        v = regs[r]
                        if v.__class__ is int or (v.__class__ is Ptr and v[1].__class__ is int and v[0] in oldo):
                            o.append((r, v))
                        else:
                            o.append(r)
                            refs.append(v)
                t = (old, hash(tuple(o)), refs)
                if not top:
                    fr.tm = t
            ap(t[1])
            for v in t[2]:
                ap(enc(v))
            top = False
            fr = fr.parent
        mon = st.mon
        for k in sorted(mon):
            ap(k)
            v = mon[k]
            ap(enc(v) if v.__class__ is not int else v)
        mem = st.mem
        if full:
            for n, oid in sorted([(n, oid) for n, oid in self.globals_of.items() if oid in mem and not mem[oid].const]):
                ap(n)
                ap(enc(Ptr(oid, 0)))
        else:
            acc = 0
            for oid in oldo:
                o = mem.get(oid)
                if o is None or o.const or (o.kind == "ext" and not o.cells):
                    continue
                if o.alive:
                    t = o.tmpl
                    if t is None or t[0] is not old:
                        t = self.template(o, old)
                    acc ^= hash((oid, t[1]))
                    if t[2]:
                        ap(oid)
                        for v in t[2]:
                            ap(enc(v))
                else:
                    acc ^= hash((oid, "dead"))
            for n, oid in self.globals_of.items():
                if oid not in oldo and oid in mem and not mem[oid].const:
                    ap(n)
                    ap(enc(Ptr(oid, 0)))
            ap(acc)
            atoms = st.atoms
            for a in olda:
                i = atoms.get(a)
                if i is not base[a] and i is not None:
                    ap((a, i.lo, i.hi, tuple(sorted(i.ne)), enc(i.facts) if i.facts else ()))
                if a in sub:
                    ap((a, enc(sub[a])))
        e = mem[self.errno_oid].cells.get(0)
        ap(enc(e[1]) if e else 0)
        nf = []
        for a, i in st.fds.items():
            if a in olda:
                nf.append((a, enc(i)))
        nf.sort(key=lambda x: x[0])
        ap(tuple(nf))
        qi = ai = 0
        while qi < len(oq) or ai < len(aq):
            if qi < len(oq):
                oid = oq[qi]
                qi += 1
                o = mem.get(oid)
                if o is None:
                    ap("gone")
                    continue
                if o.const:
                    ap(o.tag)
                    continue
                t = o.tmpl
                if t is None or t[0] is not old:
                    t = self.template(o, old)
                ap(t[1])
                for v in t[2]:
                    ap(enc(v))
            else:
                a = aq[ai]
                ai += 1
                inf = st.atoms[a]
                fd = st.fds.get(a)
                ap((inf.lo, inf.hi, tuple(sorted(inf.ne)) if inf.ne else (), inf.kind,
                    enc(inf.facts) if inf.facts else (), enc(fd)))
        cs = []
        for S in st.cons:
            x = []
            for a, k in S.t:
                if a in olda:
                    x.append((-1 - a, k))
                elif a in amap:
                    x.append((amap[a], k))
                else:
                    x = None
                    break
            if x is not None:
                x.sort()
                cs.append((S.c, tuple(x)))
        cs.sort()
        ap(tuple(cs))
        # what is allocated or open but not reachable any more (leaks) is part of the state
        if not full:
            lk = []
            for oid, o in mem.items():
                if o.kind == "heap" and o.alive and oid not in oldo and oid not in omap:
                    lk.append(o.tag)
            for a, i in st.fds.items():
                if a not in olda and a not in amap:
                    lk.append("fd " + i[0])
            if lk:
                lk.sort()
                ap(tuple(lk))
        t = tuple(out)
        return (hash(t), hash(t[::-1]))

    def template(self, o, old):
        """(old set, digest, references to things newer than the event start or symbolic values)"""
        refs = []
        oldo = old[0]

        def tenc(v):
            c = v.__class__
            if c is int or c is str or v is None or c is bool:
                return v
            if c is Ptr:
                if v[0] in oldo and v[1].__class__ is int:
                    return v
                refs.append(v)
                return "?"
            if c is Lin or c is Cond:
                refs.append(v)
                return "?"
            if c is tuple or c is list:
                return tuple([tenc(x) for x in v])
            if c is Fn:
                return ("F", v.name)
            if c is frozenset:
                return tuple(sorted(repr(x) for x in v))
            return repr(v)
        cells = o.cells
        sh = (o.kind, o.alive, tenc(o.size), o.fill,
              tuple([(k, cells[k][0], tenc(cells[k][1])) for k in sorted(cells)]),
              tuple([(k, tenc(o.ghost[k])) for k in sorted(o.ghost)]))
        o.tmpl = (old, hash(sh), refs)
        return o.tmpl

    def refs_of(self, o):
        r = o.raw
        if r is None:
            r = o.raw = tuple([x for k, x in o.ghost.items() if not k.startswith("~")]) + \
                tuple([x for _, x in o.cells.values() if x.__class__ is not int])
        return r

    def reachable(self, st, roots=()):
        """(oids, atoms) reachable from globals, frames, monitors and extra roots"""
        oids, ats = set(), set()
        stack = list(roots)
        fr = st.fr
        while fr is not None:
            stack += fr.regs.values()
            stack += [Ptr(o) for o in fr.allocas]
            fr = fr.parent
        stack += [v for k, v in st.mon.items() if not k.startswith('~')]
        stack += [Ptr(oid) for n, oid in self.globals_of.items() if oid in st.mem]
        while stack:
            v = stack.pop()
            c = v.__class__
            if c is Lin:
                v = st.norm(v)
                if v.__class__ is Lin:
                    for a, _ in v.t:
                        if a not in ats:
                            ats.add(a)
                            if a in st.fds:
                                stack.append(st.fds[a])
            elif c is Ptr:
                if v.oid not in oids and v.oid in st.mem:
                    oids.add(v.oid)
                    o = st.mem[v.oid]
                    stack += self.refs_of(o)
                if v.off.__class__ is Lin:
                    stack.append(v.off)
            elif c is tuple or c is list:
                stack += v
        return oids, ats

    def compact(self, st):
        """substitute solved atoms everywhere and forget atoms nothing refers to"""
        nm = st.norm

        def nt(v):
            c = v.__class__
            if c is Lin:
                return nm(v)
            if c is Ptr:
                return Ptr(v.oid, nm(v.off)) if v.off.__class__ is Lin else v
            if c is tuple:
                return tuple([nt(x) for x in v])
            return v
        if st.sub:
            for oid, o in list(st.mem.items()):
                if o.const:
                    continue
                ch = [(k, n, nt(v)) for k, (n, v) in o.cells.items() if v.__class__ is not int]
                gh = {k: nt(v) for k, v in o.ghost.items()}
                w = st.w(oid)
                for k, n, v in ch:
                    w.cells[k] = (n, v)
                w.ghost = gh
            f = st.fr
            while f is not None:
                for k, v in f.regs.items():
                    f.regs[k] = nt(v)
                f.tm = f.tr = None
                f = f.parent
            for k, v in list(st.mon.items()):
                st.mon[k] = nt(v)
            st.sub = {}
        _, ats = self.reachable(st)
        ats = set(ats)
        stack = list(st.mon.values()) + list(st.fds.values())
        for o in st.mem.values():
            stack += o.ghost.values()
            stack += [v for _, v in o.cells.values() if v.__class__ is not int]
            stack.append(o.size)
        f = st.fr
        while f is not None:
            stack += f.regs.values()
            f = f.parent
        ats.update(st.fds)
        todo = list(ats)
        while stack or todo:
            if todo:
                i = st.atoms.get(todo.pop())
                if i is not None and i.facts:
                    stack += i.facts
                continue
            x = stack.pop()
            c = x.__class__
            if c is Lin:
                for a, _ in x.t:
                    if a not in ats:
                        ats.add(a)
                        todo.append(a)
            elif c is tuple or c is Ptr or c is list:
                stack += x
            elif c is Cond:
                stack += (x.a, x.b)
        st.atoms = {a: i for a, i in st.atoms.items() if a in ats}
        st.cons = tuple(c for c in st.cons if all(a in ats for a, _ in c.t))

    # ---- moving states between processes
    def pack(self, st):
        frames = []
        f = st.fr
        while f is not None:
            frames.append((f.fn.name, f.blk.name, f.prev, f.ip, f.regs, f.allocas, f.depth, f.vis, f.retins is not None, f.post is not None))
            f = f.parent
        if any(x[-1] for x in frames):
            raise AnalysisError("state cannot be moved")
        consts = [self.gname[o] for o, ob in st.mem.items() if ob.const and o in self.gname]
        mem = [(o, (b.kind, b.tag, b.size, b.cells, b.fill, b.alive, b.tyname, b.ghost, b.origin, b.const))
               for o, b in st.mem.items() if not (b.const and o in self.gname)]
        tr = []
        t = st.trail
        while t is not None:
            tr.append((t[1], t[2]))
            t = t[0]
        return pickle.dumps((frames, consts, mem, st.atoms, st.cons, st.sub, st.mon, st.fds, tr), -1)

    def unpack(self, data):
        frames, consts, mem, atoms, cons, sub, mon, fds, tr = pickle.loads(data)
        s = State.__new__(State)
        s.eng = self
        s.mem = {}
        s.atoms, s.cons, s.sub, s.mon, s.fds = atoms, cons, sub, mon, fds
        s.trail = None
        for l, x in reversed(tr):
            s.trail = (s.trail, l, x)
        s.memo = {}
        s.ret = None
        s.own = set()
        s.nf = 0
        s.old = NOOLD
        for o, b in mem:
            ob = Obj.__new__(Obj)
            ob.kind, ob.tag, ob.size, ob.cells, ob.fill, ob.alive, ob.tyname, ob.ghost, ob.origin, ob.const = b
            ob.tmpl = ob.raw = None
            s.mem[o] = ob
        par = None
        for name, blk, prev, ip, regs, allocas, depth, vis, hasret, _ in reversed(frames):
            f = Frame.__new__(Frame)
            f.fn = self.prog.funcs[name]
            f.blk = f.fn.blocks[blk]
            f.prev, f.ip, f.regs, f.allocas, f.depth, f.vis = prev, ip, regs, allocas, depth, vis
            f.parent, f.post, f.nf, f.tm, f.tr = par, None, 0, None, None
            f.retins = par.blk.ins[par.ip] if hasret and par is not None else None
            par = f
        s.fr = par
        for n in consts:
            self.global_ptr(s, n)
        return s

    def run(self, starts, on_exit, seen=None, nproc=1):
        """fixpoint from start states; on_exit(st, retval) is called when the root frame returns.  States parked at the
        event point (self.pending) are explored breadth first, in parallel processes when there are many."""
        seen = set() if seen is None else seen
        gc.disable()
        self.on_exit = on_exit
        self._seen = seen
        self._visits = {}
        self.drain(list(starts))
        rnd = 0
        limit = self.opts.get("max_event_states")
        while self.pending:
            if self.stop_on and any(self.stop_on(r["kind"]) for r in self.reports.values()):
                self.truncated.add("stopped at the first violation")
                break
            if self.deadline and time.time() > self.deadline:
                self.truncated.add("time budget")
                break
            batch = list(self.pending)
            self.pending.clear()
            if limit and self.counts.get("event_states", 0) + len(batch) > limit:
                self.truncated.add("event states")
                batch = batch[:max(0, limit - self.counts.get("event_states", 0))]
                if not batch:
                    break
            self.count("event_states", len(batch))
            self.counts["max_depth"] = rnd
            rnd += 1
            if self.opts.get("trace_ev"):
                for _, st in batch:
                    self.opts["trace_ev"](self, st)
            work = collections.deque()
            for _, st in batch:
                st.old = (frozenset(st.mem), frozenset(st.atoms), st.atoms)
                st.atoms = dict(st.atoms)
                work.extend(self.models.resume(self, st))
            if nproc > 1:
                n = 0
                while work and len(work) < 4 * nproc and n < 4000:
                    self.stats["states"] += 1
                    n += 1
                    work.extend(self.step_block(work.popleft()) or ())
            if nproc > 1 and len(work) >= 2 * nproc:
                self.fork_round(list(work), nproc, rnd)
            else:
                self.drain(list(work))

    def fork_round(self, batch, nproc, rnd):
        jobs = [batch[i::nproc] for i in range(nproc)]
        kids = []
        sys.stdout.flush()
        sys.stderr.flush()
        for i, job in enumerate(jobs):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                code = 0
                try:
                    os.close(r)
                    base = (rnd * 64 + i + 1) << 36
                    self._atom = itertools.count(base)
                    self._oid = itertools.count(base)
                    old = set(self.reports)
                    self.counts, self.stats = {}, {k: 0 for k in self.stats}
                    self.callsites, self.visited_fns, self.unmodelled, self.truncated = {}, {}, set(), set()
                    err = None
                    try:
                        self.pending.clear()
                        self.drain(job)
                        res = [(k, self.pack(s)) for k, s in self.pending]
                    except BaseException as e:
                        import traceback
                        err, res = f"{e}\n{traceback.format_exc()}", []
                    data = pickle.dumps((err, res, {k: v for k, v in self.reports.items() if k not in old}, self.counts,
                                         self.stats, self.callsites, list(self.visited_fns), self.unmodelled, self.truncated), -1)
                    with os.fdopen(w, "wb") as f:
                        f.write(data)
                except BaseException:
                    code = 1
                os._exit(code)
            os.close(w)
            kids.append((pid, r))
        datas = [None] * len(kids)
        sel = selectors.DefaultSelector()
        bufs = {}
        for i, (pid, r) in enumerate(kids):
            bufs[r] = (i, [])
            sel.register(r, selectors.EVENT_READ)
        while sel.get_map():
            for key, _ in sel.select():
                d = os.read(key.fd, 1 << 20)
                if d:
                    bufs[key.fd][1].append(d)
                else:
                    i, parts = bufs[key.fd]
                    datas[i] = b"".join(parts)
                    sel.unregister(key.fd)
                    os.close(key.fd)
        for pid, _ in kids:
            os.waitpid(pid, 0)
        for d in datas:
            if not d:
                raise AnalysisError("a worker process ended early")
            err, res, reports, counts, stats, cs, vf, um, tr = pickle.loads(d)
            if err:
                raise AnalysisError("worker: " + err)
            for k, v in reports.items():
                self.reports.setdefault(k, v)
            for k, v in counts.items():
                self.count(k, v)
            for k, v in stats.items():
                self.stats[k] += v
            for k, v in cs.items():
                self.callsites[k] = self.callsites.get(k, 0) + v
            for n in vf:
                self.visited_fns[n] = self.prog.funcs[n]
            self.unmodelled |= um
            self.truncated |= tr
            for k, s in res:
                if k not in self.seen_ev:
                    self.seen_ev.add(k)
                    self.pending.append((k, self.unpack(s)))

    def drain(self, work):
        """depth first until every path is finished or parked"""
        while work:
            st = work.pop()
            self.stats["states"] += 1
            if self.deadline and time.time() > self.deadline:
                self.truncated.add("time budget")
                work.clear()
                return
            try:
                r = self.step_block(st)
            except RecursionError:
                raise AnalysisError("recursion")
            if r:
                work.extend(r)

    def enter(self, st, bname):
        """move to block; returns False if an equal state was already there"""
        fr = st.fr
        b = fr.fn.blocks[bname]
        cur = fr.blk.name
        if b.phis:
            nv = [(ph.res, self.val(st, ph.a[0][cur])) for ph in b.phis]
            for k, v in nv:
                fr.regs[k] = v
        fr.prev = cur
        fr.blk = b
        fr.ip = 0
        if b.loophead:
            fr.vis += 1
            if fr.vis > 6 or st.nf != fr.nf:
                key = self.canon(st)
                if key in self._seen:
                    self.stats["merged"] += 1
                    return False
                self._seen.add(key)
            vk = (b.fn.name, b.name)
            n = self._visits.get(vk, 0) + 1
            self._visits[vk] = n
            if n > self.opts.get("maxvisit", 2000000):
                self.truncated.add(f"{b.fn.src}:{b.ins[0].line if b.ins else 0}")
                return False
        return True

    def merge(self, st):
        """False if an equal state was already continued from this point"""
        key = self.canon(st)
        if key in self._seen:
            self.stats["merged"] += 1
            return False
        self._seen.add(key)
        return True

    def step_block(self, st):
        """execute until a fork or the end of the path; returns list of successor states"""
        while True:
            fr = st.fr
            ins_list = fr.blk.ins
            n = len(ins_list)
            while fr.ip < n:
                ins = ins_list[fr.ip]
                self.stats["steps"] += 1
                op = ins.op
                regs = fr.regs
                if op == "load":
                    sz, pv = ins.a
                    r = self.load(st, self.val(st, pv), sz)
                    if len(r) == 1 and r[0][0] is st:
                        regs[ins.res] = r[0][1]
                        fr.ip += 1
                        continue
                    return self.cont(r, ins)
                if op == "store":
                    sz, v, pv = ins.a
                    vv = self.val(st, v)
                    if vv.__class__ is Cond:
                        out = []
                        for s2, x in self.concretize(st, vv):
                            for s3 in self.store(s2, self.val(s2, pv), sz, x):
                                s3.fr.ip += 1
                                out.append(s3)
                        return out
                    r = self.store(st, self.val(st, pv), sz, vv)
                    if len(r) == 1 and r[0] is st:
                        fr.ip += 1
                        continue
                    for s in r:
                        s.fr.ip += 1
                    return r
                if op == "gep":
                    r = self.do_gep(st, ins)
                    if len(r) == 1 and r[0][0] is st:
                        regs[ins.res] = r[0][1]
                        fr.ip += 1
                        continue
                    return self.cont(r, ins)
                if op == "icmp":
                    pred, a, b, w = ins.a
                    regs[ins.res] = self.do_icmp(st, pred, self.val(st, a), self.val(st, b), w)
                    fr.ip += 1
                    continue
                if op == "bin":
                    r = self.do_bin(st, ins)
                    if len(r) == 1 and r[0][0] is st:
                        regs[ins.res] = r[0][1]
                        fr.ip += 1
                        continue
                    return self.cont(r, ins)
                if op == "cast":
                    r = self.do_cast(st, ins)
                    if len(r) == 1 and r[0][0] is st:
                        regs[ins.res] = r[0][1]
                        fr.ip += 1
                        continue
                    return self.cont(r, ins)
                if op == "alloca":
                    t, cnt = ins.a
                    c = self.val(st, cnt)
                    size = scale(c, fr.fn.mod.sizeof(t)) if c.__class__ in (int, Lin) else None
                    oid = st.new("stack", f"local '{(ins.res or '').split('.addr')[0]}' of {fr.fn.src}", size, "undef",
                                 t.name[7:] if t.k == "st" and t.name.startswith("struct.") else None)
                    fr.allocas += (oid,)
                    regs[ins.res] = Ptr(oid, 0)
                    fr.ip += 1
                    continue
                if op == "br":
                    if not self.enter(st, ins.a[0]):
                        return []
                    break
                if op == "condbr":
                    c = self.val(st, ins.a[0])
                    fs = self.fork_cond(st, c)
                    if len(fs) == 1 and fs[0][0] is st:
                        if not self.enter(st, ins.a[1] if fs[0][1] else ins.a[2]):
                            return []
                        break
                    self.stats["forks"] += 1
                    out = []
                    for s2, t in fs:
                        if self.enter(s2, ins.a[1] if t else ins.a[2]):
                            out.append(s2)
                    return out
                if op == "switch":
                    return self.do_switch(st, ins)
                if op == "call":
                    r = self.do_call(st, ins)
                    if r is None:  # frame pushed
                        break
                    if len(r) == 1 and r[0][0] is st and st.fr is fr:
                        if ins.res is not None:
                            regs[ins.res] = r[0][1]
                        fr.ip += 1
                        continue
                    return self.cont(r, ins)
                if op == "ret":
                    r = self.do_ret(st, ins)
                    if r is None:
                        break
                    return r
                if op == "select":
                    c, a, b = ins.a
                    cv = self.val(st, c)
                    av, bv = self.val(st, a), self.val(st, b)
                    if cv.__class__ is int:
                        regs[ins.res] = av if cv & 1 else bv
                        fr.ip += 1
                        continue
                    r = [(s2, self.val(s2, a) if t else self.val(s2, b)) for s2, t in self.fork_cond(st, cv)]
                    return self.cont(r, ins)
                if op == "unreachable":
                    return []
                if op in ("fp", "asm"):
                    if ins.res:
                        regs[ins.res] = FPV if op == "fp" else st.unk(8)
                    fr.ip += 1
                    continue
                if op == "agg":
                    regs[ins.res] = UNDEF
                    fr.ip += 1
                    continue
                raise AnalysisError("op " + op)
            else:
                raise AnalysisError("fell off block")

    def cont(self, rs, ins):
        out = []
        for s, v in rs:
            if v is PUSHED:
                out.append(s)
                continue
            if ins.res is not None:
                s.fr.regs[ins.res] = v
            s.fr.ip += 1
            out.append(s)
        return out

    def do_gep(self, st, ins):
        base, const, var, path = ins.a
        b = self.val(st, base)
        off = const
        states = [(st, off)]
        for idx, sz, w in var:
            nx = []
            for s, o in states:
                iv = self.val(s, idx)
                if iv is UNDEF:
                    self.report("mem.uninit", s, "index is uninitialised")
                    continue
                if iv.__class__ is Cond:
                    for s2, x in self.concretize(s, iv):
                        nx.append((s2, add(o, x * sz)))
                    continue
                for s2, x in self.resolve(s, iv, w, True):
                    if x.__class__ not in (int, Lin):
                        x = s2.unk(8)
                    nx.append((s2, add(o, scale(x, sz))))
            states = nx
        out = []
        for s, o in states:
            if b.__class__ is Ptr:
                out.append((s, Ptr(b.oid, s.norm(add(b.off, o)))))
            elif b.__class__ is int and b == 0 and (o.__class__ is not int or o != 0 or path):
                # &NULL->field : keep as a small invalid address; a dereference reports
                out.append((s, o if o != 0 else 0))
            elif b.__class__ in (int, Lin):
                out.append((s, add(b, o)))
            else:
                out.append((s, b))
        return out

    def do_icmp(self, st, pred, a, b, w):
        ca, cb = a.__class__, b.__class__
        if ca is int and cb is int:
            if pred[0] == "s" or pred in ("eq", "ne"):
                x, y = self.norm_int(a, w, True), self.norm_int(b, w, True)
            else:
                x, y = self.norm_int(a, w, False), self.norm_int(b, w, False)
            op = pred if pred in ("eq", "ne") else pred[1:]
            return int({"eq": x == y, "ne": x != y, "lt": x < y, "le": x <= y, "gt": x > y, "ge": x >= y}[op])
        if ca is Ptr and cb is Ptr:
            if a.oid == b.oid:
                return self.do_icmp(st, pred, a.off, b.off, 64)
            if pred == "eq":
                return 0
            if pred == "ne":
                return 1
        if (ca in (Ptr, Fn)) != (cb in (Ptr, Fn)) and a is not UNDEF and b is not UNDEF:
            if pred == "eq":
                return 0
            if pred == "ne":
                return 1
        if ca is Fn and cb is Fn:
            if pred == "eq":
                return int(a.name == b.name)
            if pred == "ne":
                return int(a.name != b.name)
        # cmp of zext'd condition with 0 handled by concretisation at cast
        return Cond(pred, a, b, w)

    def do_bin(self, st, ins):
        op, a, b, w = ins.a
        x, y = self.val(st, a), self.val(st, b)
        if x is UNDEF or y is UNDEF:
            return [(st, UNDEF)]
        if x.__class__ is Cond or y.__class__ is Cond:
            if op == "xor" and y == 1 and x.__class__ is Cond:
                return [(st, Cond(NEG[x.pred], x.a, x.b, x.w))]
            if op == "xor" and x == 1 and y.__class__ is Cond:
                return [(st, Cond(NEG[y.pred], y.a, y.b, y.w))]
            out = []
            for s2, xv in self.concretize(st, x):
                for s3, yv in self.concretize(s2, y):
                    out += self.arith(s3, op, xv, yv, w)
            return out
        return self.arith(st, op, x, y, w)

    def arith(self, st, op, x, y, w):
        cx, cy = x.__class__, y.__class__
        if x is FPV or y is FPV:
            return [(st, st.unk(max(1, w // 8)))]
        if cx is Ptr or cy is Ptr:
            if op == "sub" and cx is Ptr and cy is Ptr and x.oid == y.oid:
                return [(st, sub(x.off, y.off))]
            if op == "add" and cx is Ptr and cy in (int, Lin):
                return [(st, Ptr(x.oid, add(x.off, y)))]
            if op == "add" and cy is Ptr and cx in (int, Lin):
                return [(st, Ptr(y.oid, add(y.off, x)))]
            if op == "sub" and cx is Ptr and cy in (int, Lin):
                return [(st, Ptr(x.oid, sub(x.off, y)))]
            return [(st, st.unk(max(1, w // 8)))]
        if cx is Fn or cy is Fn:
            return [(st, st.unk(max(1, w // 8)))]
        if op == "add":
            r = add(x, y)
        elif op == "sub":
            r = sub(x, y)
        elif op == "mul":
            if cx is int:
                r = scale(y, self.norm_int(x, w))
            elif cy is int:
                r = scale(x, self.norm_int(y, w))
            else:
                (l1, h1), (l2, h2) = st.rng(x), st.rng(y)
                c = [l1 * l2, l1 * h2, h1 * l2, h1 * h2]
                return [(st, st.fresh(min(c), max(c)))]
        else:
            return self.bitop(st, op, x, y, w)
        if r.__class__ is int:
            r = self.norm_int(r, w)
        return [(st, r)]

    def bitop(self, st, op, x, y, w):
        cx, cy = x.__class__, y.__class__
        M = (1 << w) - 1
        if cx is int and cy is int:
            ux, uy = x & M, y & M
            sx, sy = self.norm_int(x, w), self.norm_int(y, w)
            if op == "and":
                r = ux & uy
            elif op == "or":
                r = ux | uy
            elif op == "xor":
                r = ux ^ uy
            elif op == "shl":
                r = ux << uy
            elif op == "lshr":
                r = ux >> uy
            elif op == "ashr":
                r = sx >> uy
            elif uy == 0:
                self.report("mem.div", st, "division by zero")
                return []
            elif op == "udiv":
                r = ux // uy
            elif op == "urem":
                r = ux % uy
            elif op == "sdiv":
                r = abs(sx) // abs(sy) * (1 if (sx < 0) == (sy < 0) else -1)
            elif op == "srem":
                r = abs(sx) % abs(sy) * (1 if sx >= 0 else -1)
            return [(st, self.norm_int(r, w))]
        if op == "and" and cx is int:
            x, y, cx, cy = y, x, cy, cx
        if op in ("or", "xor") and cx is int:
            x, y, cx, cy = y, x, cy, cx
        if cy is int:
            uy = y & M
            if op == "and":
                if uy == 0:
                    return [(st, 0)]
                if uy == M:
                    return [(st, x)]
                if uy & (uy + 1) == 0:
                    k = uy.bit_length()
                    red = mk(x.c % (1 << k), {a: q % (1 << k) for a, q in x.t})
                    return [(s2, v) for s2, v in self.resolve(st, red, k, False)]
                # x multiple of 2^k and within the mask -> identity
                low = (uy & -uy).bit_length() - 1
                if (uy >> low) & ((uy >> low) + 1) == 0 and x.c % (1 << low) == 0 and all(q % (1 << low) == 0 for _, q in x.t):
                    lo, hi = st.rng(x)
                    if lo >= 0 and hi <= uy:
                        return [(st, x)]
                if len(x.t) == 1 and x.c == 0 and x.t[0][1] == 1:
                    i = st.atoms[x.t[0][0]]
                    bits = [f for f in i.facts if f[0] == "bits"]
                    for _, setm, clr in bits:
                        if uy & ~(setm | clr) == 0:
                            return [(st, self.norm_int(uy & setm, w))]
                    # single-bit test: split and remember
                    if uy & (uy - 1) == 0:
                        setm, clr = (bits[0][1], bits[0][2]) if bits else (0, 0)
                        out = []
                        for on in (True, False):
                            s2 = st.copy() if on else st
                            i2 = s2.atoms[x.t[0][0]]
                            nf = frozenset([f for f in i2.facts if f[0] != "bits"] +
                                           [("bits", setm | uy if on else setm, clr if on else clr | uy)])
                            s2.atoms[x.t[0][0]] = i2.with_(facts=nf)
                            if on and i2.lo == 0 and i2.hi >= 0 and not s2.assume_ge0(add(x, -uy if uy <= i2.hi else 0)) :
                                continue
                            out.append((s2, self.norm_int(uy, w) if on else 0))
                        return out
                key = ("and", x, uy)
                r = st.memo.get(key)
                if r is None:
                    r = st.memo[key] = st.fresh(0, uy, facts=[("maskof", x, uy)])
                return [(st, st.norm(r))]
            if op == "or":
                if uy == 0:
                    return [(st, x)]
                key = ("or", x, uy)
                r = st.memo.get(key)
                if r is None:
                    old = [f for f in st.atoms[x.t[0][0]].facts if f[0] == "bits"] if len(x.t) == 1 and x.c == 0 else []
                    sm = old[0][1] if old else 0
                    lo = -(1 << (w - 1))
                    r = st.fresh(lo, (1 << (w - 1)) - 1, facts=[("bits", sm | uy, 0), ("orof", x, uy)])
                    st.memo[key] = r
                return [(st, st.norm(r))]
            if op == "xor":
                if uy == M:
                    return [(st, sub(-1, x))]
                if w == 1:
                    return [(st, sub(1, x))] if uy else [(st, x)]
            if op == "shl":
                return [(st, scale(x, 1 << uy))]
            if op == "urem" and uy and uy & (uy - 1) == 0:
                return self.bitop(st, "and", x, uy - 1, w)
            if op in ("lshr", "ashr", "udiv", "sdiv", "urem", "srem"):
                out = []
                for s2, v in self.resolve(st, x, w, op in ("ashr", "sdiv", "srem")):
                    d = (1 << uy) if op in ("lshr", "ashr") else self.norm_int(y, w, op in ("sdiv", "srem"))
                    if d == 0:
                        self.report("mem.div", s2, "division by zero")
                        continue
                    out += self.divmod(s2, op, v, d)
                return out
        lo = -(1 << (w - 1))
        key = (op, x, y, w)
        r = st.memo.get(key)
        if r is None:
            r = st.memo[key] = st.fresh(lo, (1 << (w - 1)) - 1)
        return [(st, st.norm(r))]

    def divmod(self, st, op, v, d):
        if v.__class__ is int:
            if op in ("lshr", "ashr"):
                return [(st, v >> (d.bit_length() - 1))]
            q = abs(v) // abs(d) * (1 if (v < 0) == (d < 0) else -1)
            return [(st, q if op in ("udiv", "sdiv") else v - q * d)]
        rem = op in ("urem", "srem")
        # exact?
        if d > 0 and v.c % d == 0 and all(k % d == 0 for _, k in v.t):
            q = mk(v.c // d, {a: k // d for a, k in v.t})
            return [(st, 0 if rem else q)]
        lo, hi = st.rng(v)
        if d > 0 and (lo >= 0 or op in ("lshr", "ashr")):
            key = ("div", v, d)
            q = st.memo.get(key)
            if q is None:
                q = st.memo[key] = st.fresh(lo // d, hi // d)
                st.assume_ge0(sub(v, scale(q, d)))
                st.assume_ge0(sub(add(scale(q, d), d - 1), v))
            q = st.norm(q)
            return [(st, sub(v, scale(q, d)) if rem else q)]
        a = max(abs(lo), abs(hi))
        return [(st, st.fresh(-abs(d) + 1, abs(d) - 1) if rem else st.fresh(-a, a))]

    def do_cast(self, st, ins):
        op, v, w1, w2 = ins.a
        x = self.val(st, v)
        if x is UNDEF or x is FPV:
            return [(st, x)]
        if op in ("ptrtoint", "inttoptr", "bitcast"):
            return [(st, x)]
        if op == "trunc":
            if x.__class__ is int:
                return [(st, self.norm_int(x, w2))]
            if w2 == 1 and x.__class__ is Lin:
                lo, hi = st.irng(x)
                if lo >= 0 and hi <= 1:
                    return [(st, Cond("ne", x, 0, 32))]
            return [(st, x)]
        # zext / sext
        if x.__class__ is Cond:
            return [(s2, (b if op == "zext" else -b)) for s2, b in self.concretize(st, x)]
        if x.__class__ is int:
            return [(st, self.norm_int(x, w1, op == "sext") if w1 > 1 or op == "sext" else x & 1)]
        if x.__class__ is Lin:
            return self.resolve(st, x, w1, op == "sext")
        return [(st, x)]

    def do_switch(self, st, ins):
        v, dflt, cases, w = ins.a
        x = self.val(st, v)
        if x is UNDEF:
            self.report("mem.uninit", st, "switch on an uninitialised value")
            return []
        if x.__class__ is int:
            for cv, lab in cases:
                if (cv - x) % (1 << w) == 0:
                    return [st] if self.enter(st, lab) else []
            return [st] if self.enter(st, dflt) else []
        out = []
        cur = [st]
        for cv, lab in cases:
            nxt = []
            for s in cur:
                s1 = s.copy()
                for s2 in self.assume_cmp(s1, "eq", x, cv, w):
                    if self.enter(s2, lab):
                        out.append(s2)
                nxt += self.assume_cmp(s, "ne", x, cv, w)
            cur = nxt
        for s in cur:
            if self.enter(s, dflt):
                out.append(s)
        return out

    def do_call(self, st, ins):
        callee, args = ins.a
        cv = self.val(st, callee)
        if cv.__class__ is not Fn:
            if cv.__class__ is Ptr and cv.oid in st.mem and "$callback" in st.mem[cv.oid].ghost:
                # opaque application callback
                vals = [self.val(st, a) for _, a in args]
                return self.models.callback(self, st, ins, st.mem[cv.oid].ghost["$callback"], vals)
            self.check_ptr(st, cv, 1, "call")
            return []
        name = cv.name
        self.callsites[(st.fr.fn.name, ins.line, name)] = self.callsites.get((st.fr.fn.name, ins.line, name), 0) + 1
        vals = []
        for t, a in args:
            vals.append(self.val(st, a) if a != ("md",) else None)
        if any(v.__class__ is Cond for v in vals):
            out = []
            states = [(st, [])]
            for v in vals:
                nx = []
                for s, acc in states:
                    for s2, x in self.concretize(s, v):
                        nx.append((s2, acc + [x]))
                states = nx
            for s, vs in states:
                r = self.call_named(s, ins, name, vs)
                if r is None:
                    out.append((s, PUSHED))
                else:
                    out += r
            return out
        return self.call_named(st, ins, name, vals)

    def call_named(self, st, ins, name, vals):
        m = self.models.lookup(self, name)
        if m is not None:
            r = m(self, st, ins, vals)
            return r
        f = self.prog.funcs.get(name)
        if f is not None:
            if len(vals) < len(f.params):
                vals = vals + [UNDEF] * (len(f.params) - len(vals))
            self.call(st, name, vals, ins)
            return None
        return self.models.unknown(self, st, ins, name, vals)

    def do_ret(self, st, ins):
        fr = st.fr
        v = self.val(st, ins.a[0]) if ins.a[0] is not None else None
        for o in fr.allocas:
            st.mem.pop(o, None)
        parent, post, callins = fr.parent, fr.post, fr.retins
        if v.__class__ is Cond:
            out = []
            for s2, x in self.concretize(st, v):
                for o in fr.allocas:
                    s2.mem.pop(o, None)
                r = self.finish_ret(s2, parent, post, callins, x, s2.nf != fr.nf)
                out += r
            return out
        return self.finish_ret(st, parent, post, callins, v, st.nf != fr.nf)

    def finish_ret(self, st, parent, post, callins, v, dedupe):
        if parent is None:
            st.fr = None
            self.stats["paths"] += 1
            if post is not None:
                rs = post(st, v)
                if rs is None:
                    return []
                if rs and rs[0][1] is PUSHED:
                    return [s for s, _ in rs]
                for s2, x in rs:
                    self.on_exit(s2, x)
                return []
            self.on_exit(st, v)
            return []
        st.fr = parent.copy()
        if post is not None:
            rs = post(st, v)
            out = []
            for s2, x in rs:
                if x is PUSHED:
                    out.append(s2)
                    continue
                if callins is not None and callins.res is not None:
                    s2.fr.regs[callins.res] = x
                s2.fr.ip += 1
                out.append(s2)
            return out
        if callins is not None and callins.res is not None:
            st.fr.regs[callins.res] = v
        st.fr.ip += 1
        if dedupe:
            key = self.canon(st)
            if key in self._seen:
                self.stats["merged"] += 1
                return []
            self._seen.add(key)
        return [st]


class _Pushed:
    def __repr__(self):
        return "PUSHED"


PUSHED = _Pushed()
