"""Analysis of common/log.c: the filter, the handler, errno and the level tables; and the levels messages are logged with."""
import time
from dom import *
from engine import Engine, AnalysisError
from models import Models, MAXERR

SILENT, ERROR, INFO, DEBUG = 0, 1, 2, 3
WIDE = (4, 5, 7, 100, 0x7fffffff, 0xffffffff)


class LogModels(Models):
    def clobber(self, eng, st):
        self.set_errno(eng, st, st.fresh(0, MAXERR))

    def f_clock_gettime(self, eng, st, ins, a):
        out = []
        for s, v in Models.f_clock_gettime(self, eng, st, ins, a):
            self.clobber(eng, s)
            out.append((s, v))
        return out

    def f_isatty(self, eng, st, ins, a):
        s = st.copy()
        self.clobber(eng, s)
        return [(s, 0), (st, 1)]

    def out(self, eng, r):
        res = []
        for s, v in r:
            s.mon["~out"] = 1
            self.clobber(eng, s)
            res.append((s, v))
        return res

    def f_fprintf(self, eng, st, ins, a):
        return self.out(eng, Models.f_fprintf(self, eng, st, ins, a))

    def f_fputs(self, eng, st, ins, a):
        return self.out(eng, Models.f_fputs(self, eng, st, ins, a))

    def f_fputc(self, eng, st, ins, a):
        return self.out(eng, Models.f_fputc(self, eng, st, ins, a))

    def f_dprintf(self, eng, st, ins, a):
        return self.out(eng, Models.f_dprintf(self, eng, st, ins, a))

    def f_fflush(self, eng, st, ins, a):
        return self.out(eng, [(st, 0)])

    def f_fwrite(self, eng, st, ins, a):
        return self.out(eng, [(st, a[2])]) if eng.check_ptr(st, a[0], 1, "fwrite") else []

    def f_write(self, eng, st, ins, a):
        return self.out(eng, [(st, st.fresh(-1, 1 << 20))]) if eng.check_ptr(st, a[1], a[2], "write") else []

    # ---- variable arguments
    def f_llvm_va_start(self, eng, st, ins, a):
        if eng.check_ptr(st, a[0], 24, "va_start", True):
            st.setg(a[0].oid, "~va", "fresh")
            return [(st, None)]
        return []

    def f_llvm_va_end(self, eng, st, ins, a):
        return [(st, None)]

    def f_llvm_va_copy(self, eng, st, ins, a):
        if not eng.check_ptr(st, a[0], 24, "va_copy", True) or not eng.check_ptr(st, a[1], 24, "va_copy"):
            return []
        st.setg(a[0].oid, "~va", st.mem[a[1].oid].ghost.get("~va"))
        return [(st, None)]

    def args(self, eng, st, p, what):
        """the argument list given to a consumer must be the started, unused one"""
        va = st.mem[p.oid].ghost.get("~va") if p.__class__ is Ptr and p.oid in st.mem else None
        if va is None:
            eng.report("S33.args", st, f"{what} does not get the message's arguments")
            return False
        if va == "used":
            eng.report("S33.args", st, f"{what} gets an argument list that was already consumed")
            return False
        st.setg(p.oid, "~va", "used")
        return True

    def f_vfprintf(self, eng, st, ins, a):
        if not self.args(eng, st, a[2], "the output function"):
            return []
        if a[1] != st.mon["~fmt"]:
            eng.report("S33.args", st, "the message's format is not the one that is printed")
            return []
        st.mon["~printed"] = st.mon.get("~printed", 0) + 1
        return self.out(eng, [(st, st.fresh(-1, 1 << 20))])

    def f_vsnprintf(self, eng, st, ins, a):
        if not self.args(eng, st, a[3], "the output function") or (a[1] != 0 and not eng.check_ptr(st, a[0], a[1], "vsnprintf", True)):
            return []
        if a[2] != st.mon["~fmt"]:
            eng.report("S33.args", st, "the message's format is not the one that is printed")
            return []
        st.mon["~printed"] = st.mon.get("~printed", 0) + 1
        if a[1] != 0:
            st.havoc(a[0].oid, a[0].off, a[1])
            st.setg(a[0].oid, "$str", ("atom", st.fresh(0, 1 << 62, kind="str")))
        return self.out(eng, [(st, st.fresh(-1, 1 << 20))])

    def f_vdprintf(self, eng, st, ins, a):
        return self.f_vfprintf(eng, st, ins, a)

    def callback(self, eng, st, ins, cb, vals):
        eng.count("handler_calls")
        m = st.mon
        if cb != m["~handler"]:
            eng.report("S33.handler", st, "a log handler is called that is not the configured one")
            return []
        if m.get("~called"):
            eng.report("S33.once", st, "the log handler is called twice for one message")
            return []
        m["~called"] = 1
        if len(vals) != 3 or st.norm(vals[0]) != m["~level"]:
            eng.report("S33.args", st, "the log handler does not get the message's level")
            return []
        if vals[1] != m["~fmt"]:
            eng.report("S33.args", st, "the log handler does not get the message's format")
            return []
        if not self.args(eng, st, vals[2], "the log handler"):
            return []
        self.clobber(eng, st)
        return [(st, None)]


def levels(prog):
    """(call instructions of _logf, those whose level is not a constant between ERROR and DEBUG)"""
    n, bad = 0, []
    for f in prog.funcs.values():
        for b in f.blocks.values() if isinstance(f.blocks, dict) else f.blocks:
            for ins in b.ins:
                if ins.op == "call" and ins.a[0][0] == "g" and ins.a[0][1] == "_logf":
                    n += 1
                    l = ins.a[1][0][1]
                    l = l[1] if l.__class__ is tuple and len(l) > 1 else l
                    if l.__class__ is int and not ERROR <= l <= DEBUG:
                        bad.append((f, ins, l))
    return n, bad


def run_logs(prog, opts):
    m = LogModels()
    for a, b in (("va_start", "llvm_va_start"), ("va_end", "llvm_va_end"), ("va_copy", "llvm_va_copy")):
        for s in ("llvm." + a, "llvm." + a + ".p0"):
            m.tab[s] = m.tab[b]
    eng = Engine(prog, m, "log", opts)
    eng.stop_on = opts.get("stop_on")
    fns = {}
    for n in ("_logf", "log_init", "libseat_set_log_handler", "libseat_set_log_level"):
        f = prog.funcs.get(n)
        if f is None:
            raise AnalysisError(f"{n} not found")
        fns[n] = f
    f = fns["_logf"]
    eng.exit_at = (f"{eng.short(f.file)}:{f.line}", f.src)
    base = eng.initial()
    hand = []
    for i in (0, 1):
        cb = base.new("ext", f"log handler {i + 1}", 8, "sym")
        base.mem[cb].ghost["$callback"] = ("h", i)
        hand.append(Ptr(cb, 0))

    def run(jobs):
        """[(state, function, args)] -> states after the calls"""
        out = []
        starts = []
        for st, fn, args in jobs:
            if fn is None:
                out.append(st)
                continue
            eng.call(st, fn, args)
            starts.append(st)
        eng.run(starts, lambda s, v: out.append(s))
        return out

    # initialised or not, then a level, then a handler history, then a message
    sts = [base]
    a = base.copy()
    a.mon["~init"] = 1
    eng.count("configurations")
    sts = run([(base, None, ()), (a, "log_init", [])])
    cur = []
    for s in sts:
        s.mon["~cur"] = SILENT
        cur.append(s)
        for first in (DEBUG, ERROR):
            cur += run([(s.copy(), "libseat_set_log_level", [first])])
            cur[-1].mon["~cur"] = first
    nxt = []
    for s in cur:
        for c in (None, SILENT, ERROR, INFO, DEBUG) + WIDE:
            x = s.copy()
            if c is not None:
                x.mon["~cur"] = c
            nxt.append((x, None, ()) if c is None else (x, "libseat_set_log_level", [c if c < 1 << 31 else c - (1 << 32)]))
    sts = run(nxt)
    for hs in ((), (hand[0],), (hand[0], 0), (hand[0], hand[1]), (0,), (hand[0], 0, hand[1])):
        cur = [s.copy() for s in sts]
        for h in hs:
            cur = run([(s, "libseat_set_log_handler", [h]) for s in cur])
        nxt = []
        for s in cur:
            last = hs[-1] if hs else 0
            for lv in (ERROR, INFO, DEBUG) + WIDE:
                x = s.copy()
                x.mon["~handler"] = x.mem[last.oid].ghost["$callback"] if last != 0 else None
                x.mon["~level"] = lv if lv < 1 << 31 else lv - (1 << 32)
                x.mon["~lv"] = lv
                fo = m.extstr(eng, x, "message format")
                x.mon["~fmt"] = fo
                e = x.fresh(0, MAXERR)
                m.set_errno(eng, x, e)
                x.mon["~e0"] = e
                x.note(f"a message of level {lv} is logged at level {x.mon['~cur']}" +
                       (", after log_init" if x.mon.get("~init") else "") + f", after {len(hs)} changes of the handler")
                eng.count("messages")
                nxt.append((x, "_logf", [x.mon["~level"], fo]))
        for s in run(nxt):
            check(eng, m, s)
    n, bad = levels(prog)
    eng.count("log_call_sites", n)
    for f, ins, l in bad:
        eng.exit_at = (f"{eng.short(f.file)}:{ins.line}", f.src)
        eng.report("S33.level", base, f"a message is logged with the level {l}, which is none of the levels messages have")
    return eng


def check(eng, m, st):
    g = st.mon
    lv, cur = g["~lv"], g["~cur"]
    eng.count("outcomes")
    if st.norm(sub(m.errno(eng, st), g["~e0"])) != 0:
        eng.report("S33.errno", st, "logging changes errno")
        return
    if lv > DEBUG:
        return
    custom = g["~handler"] is not None
    got = g.get("~called") if custom else g.get("~printed")
    if lv <= cur:
        if not got:
            eng.report("S33.lost", st, "a message whose level is let through is not " +
                       ("given to the handler" if custom else "printed by the default handler"))
        elif not custom and g.get("~printed") != 1:
            eng.report("S33.once", st, "a message is printed twice")
        eng.count("passed")
    else:
        if got or g.get("~out"):
            eng.report("S33.filter", st, "a message above the configured level is logged")
        eng.count("filtered")
    if custom and (g.get("~printed") or g.get("~out")):
        eng.report("S33.handler", st, "the default output is used although a handler is configured")
