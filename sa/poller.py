"""Analysis of the event loop (seatd/poller.c, common/linked_list.c) under a most general client: every sequence of API calls
-- add, change and destroy fd and signal sources, wait, finish, also from inside callbacks -- is interpreted abstractly to a
fixpoint for a bounded number of sources, with a signal arriving at every instruction that may interact with the handler."""
import time
from dom import *
from engine import Engine, AnalysisError, PUSHED
from models import Models, ENOMEM, EINTR, EAGAIN, MAXERR

FDS = (10, 11)
SIGS = (10, 12)
R, W = 1, 4
POLLIN, POLLOUT, POLLERR, POLLHUP = 1, 4, 8, 16
# functions POSIX lists as async-signal-safe (the part that could plausibly be used here)
SAFE = {"write", "read", "__errno_location", "_exit", "sigaction", "sigemptyset", "sigaddset", "signal", "raise", "kill", "getpid", "close",
        "poll", "fcntl", "fcntl64", "clock_gettime", "memcpy", "memset", "llvm.memcpy.p0.p0.i64", "llvm.memset.p0.i64", "send", "eventfd_write"}
LIVE, DEAD = 1, 2


class PollerEngine(Engine):
    """adds signal arrival before every access to what the handler touches, and loop termination"""

    def footkey(self, st, p):
        o = st.mem.get(p.oid)
        if o is None or o.kind == "stack" or o.const:
            return None
        if o.kind == "heap":
            return (o.kind, o.origin)
        return (o.kind, o.tag, p.off if p.off.__class__ is int else None)

    def report(self, kind, st, msg, key=None):
        if st.mon.get("~inh") and kind.split(".")[0] in ("mem", "abort", "fd"):
            Engine.report(self, "S21." + kind, st, msg + " (in the signal handler)", key)
        Engine.report(self, kind, st, msg, key)

    def interrupt(self, st, p):
        """state in which a signal arrives now, or None"""
        if st.mon.get("~inh"):
            if p is not None and p.__class__ is Ptr:
                k = self.footkey(st, p)
                if k is not None:
                    self.foot.add(k)
            return []
        if not st.mon.get("~budget"):
            return []
        if p is not None:
            if p.__class__ is not Ptr:
                return []
            k = self.footkey(st, p)
            if k is None or k not in self.points:
                return []
        return self.models.arrive(self, st)

    def load(self, st, p, n, what="read"):
        x = self.interrupt(st, p)
        r = Engine.load(self, st, p, n, what)
        return r + [(s, PUSHED) for s in x] if x else r

    def store(self, st, p, n, v, what="write"):
        x = self.interrupt(st, p)
        r = Engine.store(self, st, p, n, v, what)
        for s in x:
            s.fr.ip -= 1
        return r + x if x else r

    def call_named(self, st, ins, name, vals):
        if st.mon.get("~inh"):
            if name not in self.prog.funcs and name not in SAFE:
                self.report("S21.unsafe", st, f"the signal handler calls {name}(), which is not async-signal-safe", key=name)
        elif self.models.lookup(self, name) is not None:
            x = self.interrupt(st, None)
            if x:
                r = Engine.call_named(self, st, ins, name, vals)
                return r + [(s, PUSHED) for s in x]
        return Engine.call_named(self, st, ins, name, vals)

    def enter(self, st, bname):
        fr = st.fr
        b = fr.fn.blocks[bname]
        cur = fr.blk.name
        if b.phis:
            nv = [(ph.res, self.val(st, ph.a[0][cur])) for ph in b.phis]
            for k, v in nv:
                fr.regs[k] = v
        fr.prev = cur
        fr.blk = b
        fr.ip = 0
        if b.loophead:
            fr.vis += 1
            if fr.vis > 60:
                self.report("S20.loop", st, "a loop of the event loop does not terminate")
                return False
        return True


class PollerModels(Models):
    def __init__(self, prog, opts):
        super().__init__()
        self.prog = prog
        self.opts = opts
        self.fn = {}
        for n in ("poller_init", "poller_finish", "poller_add_fd", "poller_add_signal", "event_source_fd_update",
                  "event_source_fd_destroy", "event_source_signal_destroy", "poller_poll"):
            f = [x for x in prog.find(n)]
            if len(f) != 1:
                raise AnalysisError(f"poller function {n} not found")
            self.fn[n] = f[0].name

    # ---- ghost state
    def srcs(self, st):
        return [dict(s) for s in st.mon.get("~srcs", ())]

    def put(self, st, l):
        st.mon["~srcs"] = tuple(tuple(sorted(s.items())) for s in l)

    def upd(self, st, i, **k):
        out = []
        for s in self.srcs(st):
            if s["id"] == i:
                s = dict(s, **k)
            out.append(s)
        self.put(st, out)

    def src(self, st, i):
        for s in self.srcs(st):
            if s["id"] == i:
                return s

    def disp(self, st, sig):
        return st.mon.get(f"~sig{sig}", 0)

    # ---- signals
    def arrive(self, eng, st):
        """successors of st in which one signal is delivered right now (the handler's frame is pushed)"""
        out = []
        for sig in SIGS:
            h = self.disp(st, sig)
            if h == 0:
                continue
            s = st.copy()
            s.mon["~budget"] -= 1
            self.deliver(eng, s, sig, h, lambda x: [(x, PUSHED)])
            out.append(s)
        return out

    def deliver(self, eng, s, sig, h, after):
        eng.count("signals")
        for x in self.srcs(s):
            if x["kind"] == "sig" and x["fd"] == sig and x["state"] == LIVE:
                self.upd(s, x["id"], due=1, ever=1)
        if s.mon.get("~adding") == sig:
            s.mon["~addarr"] = 1
        s.note(f"signal {sig} arrives")
        s.mon["~inh"] = 1
        e0 = self.errno(eng, s)

        def post(x, v):
            x.mon.pop("~inh", None)
            e1 = self.errno(eng, x)
            if x.eq0(sub(x.norm(e1), x.norm(e0))) is not True:
                if x.fr is None:
                    eng.exit_at = eng.hloc(h)
                eng.report("S21.errno", x, "the signal handler changes errno")
                eng.exit_at = ("", "")
            self.set_errno(eng, x, e0)
            return after(x)
        eng.call(s, h.name, [sig], None, post)

    def sig_install(self, eng, st, sig, h):
        if sig.__class__ is not int:
            eng.report("S21.signo", st, "an unexpected signal number is configured")
            return
        if h.__class__ is Ptr:
            eng.report("S21.handler", st, "the signal handler is not a function")
            return
        if h.__class__ is int:
            st.mon.pop(f"~sig{sig}", None)
            if h == 1:
                if any(s["kind"] == "sig" and s["fd"] == sig and s["state"] == LIVE for s in self.srcs(st)):
                    eng.report("S21.ignored", st, "a signal with a registered source is ignored")
        else:
            st.mon[f"~sig{sig}"] = h
        eng.count("dispositions")

    def f_sigaction(self, eng, st, ins, a):
        if a[1].__class__ is Ptr:
            if not eng.check_ptr(st, a[1], 152, "sigaction"):
                return []
            h, fl = st.getcell(a[1].oid, a[1].off, 8), st.getcell(a[1].oid, a[1].off + 136, 4)
            if h is UNDEF or fl is UNDEF:
                eng.report("mem.uninit", st, "sigaction with an uninitialised structure")
                return []
            fl = st.norm(fl)
            if fl.__class__ is not int or fl & 0x80000000:
                eng.report("S21.reset", st, "the handler is removed by the first signal (SA_RESETHAND)")
            if fl.__class__ is int and fl & 0x40000000:
                eng.report("S21.nest", st, "the handler can be interrupted by itself (SA_NODEFER)")
            self.sig_install(eng, st, st.norm(a[0]), h)
        return [(st, 0)]

    def f_signal(self, eng, st, ins, a):
        old = self.disp(st, a[0]) if a[0].__class__ is int else 0
        self.sig_install(eng, st, st.norm(a[0]), a[1])
        return [(st, old)]

    def f_sigfillset(self, eng, st, ins, a):
        if not eng.check_ptr(st, a[0], 128, "sigfillset", True):
            return []
        st.setcell(a[0].oid, a[0].off, 128, 1)
        return [(st, 0)]

    def f_sigaddset(self, eng, st, ins, a):
        return [(st, 0)]

    # ---- the signal pipe
    def f_pipe(self, eng, st, ins, a):
        r = Models.f_pipe(self, eng, st, ins, a)
        for s, v in r:
            if v == 0:
                s.mon["~pipe"] = tuple(s.getcell(a[0].oid, a[0].off + 4 * k, 4) for k in (0, 1))
                s.mon["~fill"] = 0
        return r

    f_pipe2 = f_pipe

    def is_pipe(self, st, v, end):
        p = st.mon.get("~pipe")
        return p is not None and st.eq0(sub(st.norm(v), p[end])) is True

    def f_write(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "write")
        if i == "bad":
            return self.bad(eng, st)
        if not self.is_pipe(st, a[0], 1):
            eng.report("S21.wakeup", st, "something else than the wake-up pipe is written")
            return [(st, st.fresh(-1, 1))]
        if not eng.check_ptr(st, a[1], a[2], "write buffer"):
            return []
        if st.mon.get("~inh") and not i[2]:
            eng.report("S21.block", st, "the signal handler can block on a full pipe")
        n = st.mon["~fill"]
        out = []
        if n > 0:
            s = st.copy()
            self.set_errno(eng, s, EAGAIN)
            out.append((s, -1))
        if a[2] != 0:
            st.mon["~fill"] = 1
        out.append((st, a[2]))
        eng.count("wakeups")
        return out

    def f_read(self, eng, st, ins, a):
        i = self.use_fd(eng, st, a[0], "read")
        if i == "bad":
            return self.bad(eng, st)
        if not self.is_pipe(st, a[0], 0):
            eng.report("S20.read", st, "the poller reads from something else than its wake-up pipe")
            return [(st, st.fresh(-1, 1))]
        if not eng.check_ptr(st, a[1], a[2], "read buffer", True):
            return []
        n = st.mon["~fill"]
        if n == 0:
            if not i[2]:
                eng.report("S17.block", st, "reading the empty wake-up pipe blocks")
                return []
            self.set_errno(eng, st, EAGAIN)
            return [(st, -1)]
        out = []
        st.havoc(a[1].oid, a[1].off, a[2])
        if a[2].__class__ is not int:
            return [(st, st.fresh(1, 65536))]
        # a full buffer, with more left; or everything
        s = st.copy()
        s.mon["~fill"] = 0
        out.append((s, s.fresh(1, a[2]) if a[2] > 1 else 1))
        if not st.mon.get("~more"):
            st.mon["~more"] = 1
            out.append((st, a[2]))
        return out

    def on_free(self, eng, st, oid):
        for s in self.srcs(st):
            if s["obj"].__class__ is Ptr and s["obj"].oid == oid:
                if s["state"] == LIVE and not st.mon.get("~finish"):
                    eng.report("S20.free", st, "a source is freed although it was not destroyed")
                self.put(st, [x for x in self.srcs(st) if x["id"] != s["id"]])

    # ---- waiting
    def f_poll(self, eng, st, ins, a):
        arr, n, to = a
        out = []
        n = st.norm(n)
        if n.__class__ is not int:
            raise AnalysisError("poll: number of descriptors is not known")
        eng.count("waits")
        if not eng.check_ptr(st, arr, 8 * n, "poll", True):
            return []
        if st.norm(to) != -1 and not (to.__class__ is int and to >= 0xffffffff):
            eng.report("S20.timeout", st, "the poller does not wait for events")
        want = {}
        for s in self.srcs(st):
            if s["kind"] == "fd" and s["state"] == LIVE:
                want.setdefault((s["fd"], (POLLIN if s["mask"] & R else 0) | (POLLOUT if s["mask"] & W else 0)), []).append(s["id"])
        idx = []
        sigp = None
        for i in range(n):
            fd, ev = st.norm(st.getcell(arr.oid, arr.off + 8 * i, 4)), st.norm(st.getcell(arr.oid, arr.off + 8 * i + 4, 2))
            if fd is UNDEF or ev is UNDEF:
                eng.report("mem.uninit", st, "poll on an uninitialised entry")
                return []
            if self.is_pipe(st, fd, 0):
                if ev.__class__ is int and ev & POLLIN and sigp is None:
                    sigp = i
                    continue
            if fd.__class__ is int and fd < 0:
                continue
            l = want.get((fd, ev)) if fd.__class__ is int and ev.__class__ is int else None
            if not l:
                eng.report("S20.set", st, "the poller waits for something that is not (or no longer) registered like that")
                return []
            idx.append((i, l.pop(0), ev))
        if any(want.values()):
            eng.report("S20.set", st, "the poller does not wait for every registered source")
            return []
        if sigp is None:
            eng.report("S21.set", st, "the poller does not wait for its wake-up pipe")
            return []
        full = st.mon["~fill"] > 0
        if not full and any(s["kind"] == "sig" and s["state"] == LIVE and s["due"] for s in self.srcs(st)):
            eng.report("S21.lost", st, "a signal that arrived is never reported: nothing is left to wake the poller up and its "
                       "callback was not called after it arrived")
            return []
        if st.mon.get("~eintr", 0) > 0:
            s = st.copy()
            s.mon["~eintr"] -= 1
            s.mon["~mustretry"] = 1
            self.set_errno(eng, s, EINTR)
            s.note("poll is interrupted")
            out.append((s, -1))
        if self.ok(eng, "poll"):
            s = st.copy()
            s.mon.pop("~mustretry", None)
            self.set_errno(eng, s, ENOMEM)
            s.mon["~pollerr"] = 1
            out.append((s, -1))
        st.mon.pop("~mustretry", None)
        combos = [[]]
        for i, sid, ev in idx:
            ch = [0, POLLHUP]
            if ev & POLLIN:
                ch += [POLLIN, POLLIN | POLLHUP]
            if ev & POLLOUT:
                ch += [POLLOUT]
            if self.opts.get("errs") and len(idx) == 1:
                ch += [POLLERR]
                if ev & POLLOUT:
                    ch += [POLLIN | POLLOUT]
            combos = [c + [(i, sid, r)] for c in combos for r in ch]
        for c in combos:
            cnt = sum(1 for x in c if x[2]) + (1 if full else 0)
            if cnt == 0:
                continue
            s = st.copy()
            s.setcell(arr.oid, arr.off + 8 * sigp + 6, 2, POLLIN if full else 0)
            for i, sid, r in c:
                s.setcell(arr.oid, arr.off + 8 * i + 6, 2, r)
                self.upd(s, sid, rev=r, called=0)
                if r:
                    s.note(f"a descriptor source reports {r}")
            s.mon["~cb"] = self.opts.get("nested", 1)
            s.mon["~pfds"] = (arr, n)
            out.append((s, cnt))
        return out

    f_ppoll = f_poll

    # ---- callbacks
    def callback(self, eng, st, ins, cb, vals):
        i = cb[1]
        s = self.src(st, i)
        eng.count("callbacks")
        bad = None
        if s is None or s["state"] != LIVE:
            eng.report("S20.destroyed", st, "a callback is called for a source that was destroyed")
            return []
        if st.mon.get("~inh"):
            eng.report("S21.handlercb", st, "a callback is called from the signal handler")
            return []
        if s["kind"] == "fd":
            if s["rev"] is None:
                bad = "a callback is called for a source that was not part of the wait"
            elif s["rev"] == 0:
                bad = "a callback is called although nothing was reported for its descriptor"
            elif s["called"]:
                bad = "a callback is called twice for one event"
            else:
                m = (R if s["rev"] & POLLIN else 0) | (W if s["rev"] & POLLOUT else 0) | (8 if s["rev"] & POLLERR else 0) | \
                    (16 if s["rev"] & POLLHUP else 0)
                if len(vals) != 3 or st.norm(vals[0]) != s["fd"] or st.norm(vals[1]) != m or vals[2] != s["dat"]:
                    bad = "a callback gets other arguments than its descriptor, the reported events and its data"
            if bad:
                eng.report("S20.event", st, bad)
                return []
            self.upd(st, i, called=1)
        else:
            if len(vals) != 2 or st.norm(vals[0]) != s["fd"] or vals[1] != s["dat"]:
                eng.report("S20.event", st, "a signal callback gets other arguments than its signal and its data")
                return []
            if not s["ever"]:
                eng.report("S21.spurious", st, "a signal callback is called although the signal never arrived")
                return []
            self.upd(st, i, due=0)
        st.note(f"callback of the source of {s['kind']} {s['fd']}")
        out = [(st.copy(), 0)]
        if st.mon.get("~budget"):
            for sig in SIGS:
                h = self.disp(st, sig)
                if h != 0:
                    x = st.copy()
                    x.mon["~budget"] -= 1
                    self.deliver(eng, x, sig, h, lambda y: [(y, 0)])
                    out.append((x, PUSHED))
        if st.mon.get("~cb", 0) > 0:
            st.mon["~cb"] -= 1
            for x in self.ops(eng, st, ins, True):
                out.append((x, PUSHED))
        return out

    # ---- API calls
    def ops(self, eng, st, ins, nested):
        """states in which one API call has been started"""
        srcs = self.srcs(st)
        live = [s for s in srcs if s["state"] == LIVE]
        P = Ptr(eng.poller, 0)
        out = []

        def go(name, args, fin, **mon):
            s = st.copy()
            if not nested:
                s.mon["~budget"] = self.opts.get("signals", 1)
                s.mon["~eintr"] = 1
            for k, v in mon.items():
                s.mon["~" + k] = v
            s.note(f"call of {name}({', '.join(str(a) for a in args if a.__class__ is int)})")
            eng.count("api_calls")

            def post(x, v):
                fin(x, v)
                if x.mon.get("~bad"):
                    return []
                if nested:
                    r = [(x, 0)]
                    if x.mon.get("~cb", 0) > 0:
                        y = x.copy()
                        y.mon["~cb"] -= 1
                        r += [(z, PUSHED) for z in self.ops(eng, y, ins, True)]
                    return r
                return self.end(eng, x)
            eng.call(s, self.fn[name], args, ins, post)
            out.append(s)
        free = [k for k, o in enumerate(eng.cbs) if Ptr(o, 0) not in {s["id"] for s in srcs}]
        nfd = sum(1 for s in live if s["kind"] == "fd")
        nsig = sum(1 for s in live if s["kind"] == "sig")
        if free and len(srcs) < self.opts["maxsrc"]:
            i, dat = Ptr(eng.cbs[free[0]], 0), Ptr(eng.dat[free[0]], 0)
            if nfd < self.opts["maxfd"]:
                used = {s["fd"] for s in live if s["kind"] == "fd"}
                for fd in [f for f in FDS if f not in used][:1]:
                    for mask in self.opts.get("masks", (R, R | W)):
                        go("poller_add_fd", [P, fd, mask, i, dat],
                           lambda x, v, i=i, dat=dat, fd=fd, mask=mask: self.added(eng, x, v, i, dat, "fd", fd, mask))
            if nsig < self.opts["maxsig"]:
                for sig in SIGS if nsig else SIGS[:1]:
                    go("poller_add_signal", [P, sig, i, dat],
                       lambda x, v, i=i, dat=dat, sig=sig: self.added(eng, x, v, i, dat, "sig", sig, 0), adding=sig)
        for s in live:
            if s["kind"] == "fd":
                go("event_source_fd_destroy", [s["obj"]], lambda x, v, i=s["id"]: self.destroyed(eng, x, i))
                m = R if s["mask"] & W else R | W
                if len(self.opts.get("masks", (1, 2))) > 1:
                    go("event_source_fd_update", [s["obj"], m], lambda x, v, i=s["id"], m=m: self.upd(x, i, mask=m))
            else:
                go("event_source_signal_destroy", [s["obj"]], lambda x, v, i=s["id"]: self.destroyed(eng, x, i))
        if not nested:
            go("poller_poll", [P], lambda x, v: self.polled(eng, x, v))
            go("poller_finish", [P], lambda x, v: None, finish=1)
            s = st.copy()
            s.mon["~budget"] = 1
            for sig in SIGS:
                h = self.disp(s, sig)
                if h != 0:
                    x = s.copy()
                    self.deliver(eng, x, sig, h, lambda y: self.end(eng, y))
                    out.append(x)
        return out

    def at(self, eng, name, st, kind, msg):
        f = self.prog.funcs[self.fn[name]]
        ln = next((ins.line for b in f.blocks.values() for ins in b.ins if ins.line), 0)
        eng.exit_at = (f"{eng.short(f.file)}:{ln}", f.src)
        fr, st.fr = st.fr, None
        eng.report(kind, st, msg)
        st.fr = fr
        eng.exit_at = ("", "")

    def added(self, eng, st, v, i, dat, kind, fd, mask):
        st.mon.pop("~adding", None)
        arr = st.mon.pop("~addarr", 0)
        if v.__class__ is Ptr:
            self.put(st, self.srcs(st) + [{"id": i, "dat": dat, "kind": kind, "fd": fd, "mask": mask, "obj": v, "state": LIVE, "rev": None,
                                           "called": 0, "due": 0, "ever": 1 if arr else 0}])
        elif v != 0:
            self.at(eng, "poller_add_fd", st, "S20.add", "registering a source returns neither a source nor NULL")

    def destroyed(self, eng, st, i):
        s = self.src(st, i)
        if s is None:
            return
        o = st.mem.get(s["obj"].oid)
        if o is None or not o.alive:
            self.put(st, [x for x in self.srcs(st) if x["id"] != i])
        else:
            self.upd(st, i, state=DEAD, kind=None, fd=0, mask=0, rev=None, called=0, due=0, ever=0, dat=None)

    def polled(self, eng, st, v):
        if st.mon.get("~mustretry"):
            self.at(eng, "poller_poll", st, "S17.eintr", "an interrupted wait is not retried")
            st.mon["~bad"] = 1
            return
        v = st.norm(v)
        if v == 0:
            for s in self.srcs(st):
                if s["kind"] == "fd" and s["state"] == LIVE and s["rev"] and not s["called"]:
                    self.at(eng, "poller_poll", st, "S20.missed", "an event reported for a registered source is not passed to its callback")
                    st.mon["~bad"] = 1
                    return
        elif v == -1:
            if not st.mon.get("~pollerr") and not self.ok(eng, "alloc"):
                self.at(eng, "poller_poll", st, "S20.fail", "the wait fails although nothing went wrong")
        else:
            self.at(eng, "poller_poll", st, "S20.fail", "the wait returns neither 0 nor -1")

    def end(self, eng, st):
        """after a top-level operation: invariants, then park the state"""
        eng.count("operations")
        fin = st.mon.pop("~finish", 0)
        for k in ("~budget", "~eintr", "~cb", "~pollerr", "~mustretry", "~more", "~adding", "~addarr"):
            st.mon.pop(k, None)
        for s in self.srcs(st):
            if s["kind"] == "fd":
                self.upd(st, s["id"], rev=None, called=0)
        p = st.mon.pop("~pfds", None)
        if p is not None and p[0].oid in st.mem and st.mem[p[0].oid].alive:
            for i in range(p[1]):
                st.setcell(p[0].oid, p[0].off + 8 * i + 6, 2, st.fresh(-(1 << 15), (1 << 15) - 1))
        if fin:
            for oid, o in st.mem.items():
                if o.kind == "heap" and o.alive:
                    self.at(eng, "poller_finish", st, "S18.poller", f"{o.tag} is not released by poller_finish")
                    return []
            for at, i in st.fds.items():
                self.at(eng, "poller_finish", st, "S18.poller", "the wake-up pipe is not closed by poller_finish")
                return []
            for sig in SIGS:
                if self.disp(st, sig) != 0:
                    self.at(eng, "poller_finish", st, "S21.default", "a signal disposition is not restored by poller_finish")
            eng.count("finishes")
            return []
        for sig in SIGS:
            reg = any(s["kind"] == "sig" and s["fd"] == sig and s["state"] == LIVE for s in self.srcs(st))
            if reg and self.disp(st, sig) == 0:
                self.at(eng, "poller_add_signal", st, "S21.nohandler", "a signal with a registered source has no handler")
                return []
            if not reg and self.disp(st, sig) != 0:
                self.at(eng, "event_source_signal_destroy", st, "S21.default",
                        "the default disposition of a signal is not restored when its last source is destroyed")
                return []
        self.set_errno(eng, st, st.fresh(0, MAXERR))
        # forget what is dead
        oids, ats = eng.reachable(st)
        keep = set(oids)
        stack = list(st.mon.values())
        while stack:
            x = stack.pop()
            if x.__class__ is Ptr:
                keep.add(x.oid)
            elif x.__class__ is tuple:
                stack += x
        keep |= {eng.errno_oid, eng.poller} | set(eng.cbs) | set(eng.dat)
        for oid in [q for q in st.mem if q not in keep]:
            o = st.mem[oid]
            if o.kind == "heap" and o.alive:
                self.at(eng, "poller_poll", st, "S18.leak", f"{o.tag} is neither freed nor reachable any more")
                return []
            del st.mem[oid]
        st.memo = {}
        eng.compact(st)
        st.mon["~root"] = (Ptr(eng.poller, 0),)
        key = eng.canon(st, full=True)
        if key not in eng.seen_ev:
            eng.seen_ev.add(key)
            eng.pending.append((key, st))
        return []

    def resume(self, eng, st):
        return self.ops(eng, st, None, False)


def run_poller(prog, opts, points=None):
    m = PollerModels(prog, opts)
    eng = PollerEngine(prog, m, "poller", opts)
    eng.points = points if points is not None else set()
    eng.foot = set()
    eng.exit_at = ("", "")
    eng.hloc = lambda h: ("", "")
    eng.stop_on = opts.get("stop_on")
    if opts.get("budget"):
        eng.deadline = time.time() + opts["budget"]
    st = eng.initial()
    eng.poller = st.new("ext", "poller", prog.sizeof("poller"), "undef")
    eng.cbs, eng.dat = [], []
    for i in range(opts["slots"]):
        for l, t in ((eng.cbs, "callback"), (eng.dat, "data")):
            o = st.new("ext", f"{t} {i}", 8, "sym")
            if t == "callback":
                st.mem[o].ghost["$callback"] = ("src", Ptr(o, 0))
            l.append(o)

    def post(x, v):
        v = x.norm(v)
        if v == 0:
            if "~pipe" not in x.mon:
                raise AnalysisError("poller_init creates no wake-up pipe")
            return m.end(eng, x)
        for at, i in x.fds.items():
            m.at(eng, "poller_init", x, "S18.poller", "a failed poller_init leaves descriptors open")
            break
        return []
    eng.call(st, m.fn["poller_init"], [Ptr(eng.poller, 0)], None, post)
    eng.run([st], lambda s, v: None, nproc=opts.get("nproc", 1))
    return eng


def analyse(prog, opts):
    """repeat with the interruption points the handler's accesses call for"""
    pts = set()
    while True:
        eng = run_poller(prog, opts, set(pts))
        if eng.foot <= pts or eng.reports:
            return eng
        pts |= eng.foot
