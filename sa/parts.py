"""Registry: which analyses decide which property, with which configuration."""
import time
from engine import AnalysisError

BASE = {"alloc", "put", "flush", "flusherr", "fcntl", "poller", "dup", "getsockopt"}


class Result:
    def __init__(self, name):
        self.name = name
        self.reports = []        # dicts with kind, prop, loc, function, msg, stack, trail
        self.counts = {}
        self.functions = set()
        self.sites = 0
        self.notes = []
        self.bounds = {}
        self.rules = []
        self.error = None
        self.wall = 0.0


def kind_prop(kind, side):
    if len(kind) > 3 and kind[0] == "S" and kind[1:3].isdigit():
        return kind[:3]
    k = kind.split(".")[0]
    if side == "log":
        return "S33"
    if side == "select":
        return "S25"
    if side == "lib":
        return {"mem": "S29", "abort": "S29", "fd": "S30", "fmt": "S29"}.get(k)
    if side == "poller":
        return {"mem": "S20", "abort": "S20", "fd": "S18", "fmt": "S20"}.get(k)
    if side == "launch":
        return {"mem": "S24", "abort": "S24", "fd": "S24", "fmt": "S24"}.get(k)
    return {"mem": "S10", "abort": "S09", "fd": "S18", "fmt": "S10"}.get(k)


def summary(eng):
    """the picklable outcome of one engine run"""
    return dict(reports=list(eng.reports.values()), counts=dict(eng.counts), stats=dict(eng.stats),
                fns={f"{eng.short(f.file)}:{f.src}" for f in eng.visited_fns.values()}, sites=set(eng.callsites),
                truncated=set(eng.truncated), unmodelled=set(eng.unmodelled), names=set(eng.visited_fns))


def from_engine(res, eng, side, need=()):
    from_summaries(res, [summary(eng)], side, need)


def from_summaries(res, sums, side, need=()):
    trunc, unm, sites = set(), set(), set()
    for s in sums:
        for r in s["reports"]:
            r = dict(r)
            r["prop"] = kind_prop(r["kind"], side)
            r["part"] = res.name
            res.reports.append(r)
        for k, v in s["counts"].items():
            res.counts[k] = res.counts.get(k, 0) + v
        for k in ("states", "steps", "merged", "paths"):
            res.counts[k] = res.counts.get(k, 0) + s["stats"][k]
        res.functions |= s["fns"]
        sites |= s["sites"]
        trunc |= s["truncated"]
        unm |= s["unmodelled"]
    res.sites += len(sites)
    if trunc:
        res.notes.append("exploration bounded: " + ", ".join(sorted(trunc)))
    if unm:
        res.notes.append("calls without a model (result unconstrained): " + ", ".join(sorted(unm)))
    for n in need:
        if not res.counts.get(n) and not res.reports:
            raise AnalysisError(f"{res.name}: no instance of '{n}' was analysed")


def pool(fn, tasks):
    """[fn(task)] computed by forked workers; exceptions are re-raised"""
    import multiprocessing as mp
    global _POOLFN
    _POOLFN = fn
    with mp.get_context("fork").Pool(min(NPROC, len(tasks))) as p:
        out = p.map(_pool1, tasks, chunksize=1)
    for o in out:
        if o.__class__ is tuple and o and o[0] == "!error":
            raise AnalysisError(o[1])
    return out


def _pool1(task):
    try:
        return _POOLFN(task)
    except Exception as e:
        import traceback
        traceback.print_exc()
        return ("!error", f"{type(e).__name__}: {e}")


NPROC = 8

# the whole daemon, event by event
SERVER = {
    # name: (options, instances that must occur)
    "one-client": (dict(K=1, vt=False, maxdev=2), ("events", "replies", "opens", "leak_checks")),
    "one-client-vt": (dict(K=1, vt=True, maxdev=1), ("events", "replies", "opens", "ioctls", "enables")),
    "faults": (dict(K=1, vt=False, maxdev=1, rh=1, nofail={"x"}), ("events", "replies", "opens")),
    "faults-vt": (dict(K=1, vt=True, maxdev=0, stop=0, nofail={"x"}), ("events", "replies", "ioctls")),
    "two-clients": (dict(K=2, vt=False, maxdev=1, stop=0, errev=0, ops=(1, 2, 3, 4, 5, 6)),
                    ("events", "replies", "opens", "enables", "disables")),
    "two-clients-vt": (dict(K=2, vt=True, maxdev=0, stop=0, errev=0, ops=(1, 2, 5, 6)),
                       ("events", "replies", "ioctls", "enables", "disables")),
    "two-clients-faults": (dict(K=2, vt=False, maxdev=0, stop=0, errev=0, ops=(1, 2, 5, 6),
                                nofail={"alloc", "fcntl", "poller", "dup", "getsockopt"}),
                           ("events", "replies", "enables", "disables")),
    "revoke-two": (dict(K=1, vt=True, maxdev=2, maxrefs=1, stop=0, errev=0, ops=(1, 3), vts=(1,), classes=("drm", "evdev")),
                   ("events", "opens", "ioctls", "revocations")),
    # deeper ones
    "one-client-3dev": (dict(K=1, vt=False, maxdev=3, maxrefs=3), ("events", "replies", "opens")),
    "one-client-vt-2dev": (dict(K=1, vt=True, maxdev=2, stop=0), ("events", "replies", "opens")),
    "two-clients-2dev": (dict(K=2, vt=False, maxdev=2, stop=0, errev=0, ops=(1, 2, 3, 4, 5, 6)), ("events", "replies")),
    "two-clients-vt-dev": (dict(K=2, vt=True, maxdev=1, stop=0, errev=0, ops=(1, 2, 3, 5, 6), classes=("drm",)),
                           ("events", "replies")),
    "three-clients": (dict(K=3, vt=False, maxdev=0, stop=0, errev=0, ops=(1, 2, 5, 6)), ("events", "replies")),
    "two-clients-all": (dict(K=2, vt=False, maxdev=1), ("events", "replies")),
}


def server_part(name):
    def run(ctx, prop):
        import server
        o, need = SERVER[name]
        res = Result("server:" + name)
        t = time.time()
        opts = dict(o)
        opts.setdefault("nofail", BASE)
        opts["env"] = {b"SEATD_VTBOUND": b"1" if opts["vt"] else b"0"}
        opts["nproc"] = NPROC
        opts["budget"] = ctx.budget
        opts["stop_on"] = lambda k: kind_prop(k, "server") == prop
        opts.setdefault("max_event_states", 60000)
        eng = server.run_server(ctx.program("seatd"), opts)
        from_engine(res, eng, "server", need)
        res.bounds = {k: (sorted(v) if isinstance(v, set) else v) for k, v in o.items()}
        res.wall = time.time() - t
        return res
    run.__name__ = "server:" + name
    return run


def builtin_part(vt):
    """the server embedded in an application, from libseat_open_seat to the end of the child process"""
    def run(ctx, prop):
        import server
        o = dict(K=1, vt=vt, maxdev=0 if vt else 1, rh=1, nofail={"x"})
        res = Result("builtin-server" + ("-vt" if vt else ""))
        t = time.time()
        opts = dict(o)
        opts.update(env={b"LIBSEAT_BACKEND": b"builtin", b"SEATD_VTBOUND": b"1" if vt else b"0"}, nproc=NPROC, budget=ctx.budget)
        opts["stop_on"] = lambda k: kind_prop(k, "server") == prop
        eng = server.run_builtin(ctx.program("lib"), opts)
        from_engine(res, eng, "server", ("forks", "events", "replies", "exits", "leak_checks"))
        res.bounds = {k: (sorted(v) if isinstance(v, set) else v) for k, v in o.items()}
        res.wall = time.time() - t
        return res
    run.__name__ = "builtin-server"
    return run


def conn_part(target="seatd", deep=False):
    """common/connection.c: every API function from every ring state"""
    def run(ctx, prop):
        import conn
        res = Result(f"connection:{target}" + (":deep" if deep else ""))
        t = time.time()
        prog = ctx.program(target)

        def one(task):
            fn, opts = task
            return [summary(e) for e in conn.analyse(prog, dict(opts, time=max(60, ctx.budget * 0.4)), [fn])]
        tasks = conn.DEEP if deep else conn.TASKS
        sums = [x for l in pool(one, tasks) for x in l]
        from_summaries(res, sums, "server", () if deep else ("sendmsg", "recvmsg", "closes", "copies", "accepted", "refused", "eofs",
                                                           "descriptor_sets"))
        names = set().union(*[s["names"] for s in sums])
        if not deep:
            other, n = conn.who_calls(prog, names)
            res.counts["socket_io_call_sites"] = n
            for f, ins, callee in other:
                fl = ins.a[1][3] if callee in ("send", "sendto", "recv", "recvfrom") else ins.a[1][2] if callee in ("sendmsg", "recvmsg") else None
                fl = fl[1] if fl.__class__ is tuple and len(fl) > 1 and fl[1].__class__ is int else fl
                send = callee in ("send", "sendto", "sendmsg", "sendmmsg", "writev")
                bad = fl.__class__ is not int or not fl & conn.MSG_DONTWAIT or (send and not fl & conn.MSG_NOSIGNAL)
                if bad:
                    res.reports.append(dict(kind="S17.who", prop="S17", part=res.name, function=f.src, stack=[f.src], trail=[],
                                            loc=f"{'/'.join(f.file.split('/')[-2:])}:{ins.line}",
                                            msg=f"{callee} is called on a path where it can block or raise SIGPIPE"))
        res.bounds = {"ring positions": "all", "fill levels": "all", "partial sends": 2, "control messages per read": "1 or 2"}
        res.wall = time.time() - t
        return res
    run.__name__ = f"connection:{target}"
    return run


POLLER = {
    "sources": (dict(slots=4, maxsrc=3, maxfd=2, maxsig=0, masks=(1,), nested=2, errs=1, nofail=()), ("waits", "callbacks", "api_calls", "finishes")),
    "masks": (dict(slots=4, maxsrc=2, maxfd=2, maxsig=0, nofail={"alloc"}), ("waits", "callbacks", "api_calls", "finishes")),
    "signals": (dict(slots=4, maxsrc=2, maxfd=1, maxsig=1, masks=(1,), nofail=()), ("waits", "callbacks", "signals", "dispositions", "wakeups")),
    "two-signals": (dict(slots=4, maxsrc=2, maxfd=0, maxsig=2, nofail=()), ("waits", "callbacks", "signals", "dispositions", "wakeups")),
    "all-sources": (dict(slots=4, maxsrc=3, maxfd=2, maxsig=0, errs=1, nofail=()), ("waits", "callbacks", "api_calls")),
    "three-signals": (dict(slots=4, maxsrc=3, maxfd=0, maxsig=2, nofail=()), ("waits", "signals")),
    "mixed": (dict(slots=4, maxsrc=3, maxfd=1, maxsig=2, masks=(1,), nofail={"alloc", "poll", "pipe", "fcntl"}), ("waits", "signals")),
    "nested": (dict(slots=4, maxsrc=3, maxfd=2, maxsig=0, masks=(1,), nested=3, errs=1, nofail=()), ("waits", "callbacks")),
    "bursts": (dict(slots=4, maxsrc=2, maxfd=0, maxsig=1, signals=2, nofail={"alloc", "poll", "pipe", "fcntl"}), ("waits", "signals")),
}


def poller_part(name):
    """seatd/poller.c and the list it uses under every bounded sequence of API calls, events and signals"""
    def run(ctx, prop):
        import poller
        o, need = POLLER[name]
        res = Result("poller:" + name)
        t = time.time()
        opts = dict(o)
        opts["nproc"] = NPROC
        opts["budget"] = ctx.budget
        opts["stop_on"] = lambda k: kind_prop(k, "poller") == prop
        eng = poller.analyse(ctx.program("seatd"), opts)
        from_engine(res, eng, "poller", need)
        res.bounds = {k: (sorted(v) if isinstance(v, set) else v) for k, v in o.items()}
        if eng.points:
            res.notes.append("signals interrupt at every access to: " + ", ".join(sorted(" ".join(str(x) for x in p) for p in eng.points)))
        res.wall = time.time() - t
        return res
    run.__name__ = "poller:" + name
    return run


def startup_part(vt):
    """the daemon's main() from its command line to its first wait, and from there to its exit"""
    def run(ctx, prop):
        import startup
        res = Result("startup" + ("-vt" if vt else ""))
        t = time.time()
        mac = ctx.b.macros("seatd/seatd.c", "seatd")
        if "SEATD_DEFAULTPATH" not in mac:
            raise AnalysisError("SEATD_DEFAULTPATH is not defined by the build")
        eng = startup.run_startup(ctx.program("seatd"), {"SEATD_DEFAULTPATH": mac["SEATD_DEFAULTPATH"][1].strip('"')},
                                  dict(vt=vt, env={b"SEATD_VTBOUND": b"1" if vt else b"0"}, nofail=set()))
        from_engine(res, eng, "server", ("getopts", "stats", "unlinks", "binds", "listens", "chmods", "chowns", "notifications", "started",
                                         "lookups", "exits"))
        res.bounds = {"options": "any number, in any order"}
        res.wall = time.time() - t
        return res
    run.__name__ = "startup"
    return run


def launch_part(ctx, prop):
    """seatd-launch: every outcome of every system call"""
    import launch
    res = Result("launch")
    t = time.time()
    prog = ctx.program("launch")
    mac = ctx.b.macros("seatd-launch.c", "launch")
    defs = {}
    for k in ("SEATD_INSTALLPATH", "SEATD_DEFAULTPATH"):
        if k not in mac:
            raise AnalysisError(f"{k} is not defined by the build")
        defs[k] = mac[k][1].strip('"')
    eng = launch.run_launch(prog, defs, {})
    from_engine(res, eng, "launch", ("forks", "daemon_execs", "command_execs", "chowns", "chmods", "setids", "polls", "waits", "kills", "statuses"))
    res.bounds = {"signals interrupting each kind of call": 1, "options": "any number"}
    res.wall = time.time() - t
    return res


# the client library with the seatd backend, call by call
LIB = {
    "api": (dict(nested=0, maxev=2), ("api_calls", "requests", "callbacks", "pings", "seats", "closings", "received_fds", "successes",
                                      "failures", "dispatches", "waits", "sockets", "names")),
    "callbacks": (dict(nested=1, maxev=1), ("api_calls", "requests", "callbacks", "pings", "dispatches")),
    "hostile": (dict(nested=0, maxev=1, hostile=1), ("api_calls", "headers", "failures", "seats", "received_fds")),
    "builtin": (dict(nested=0, maxev=1, backend="builtin"), ("api_calls", "requests", "callbacks", "seats", "closings", "forks", "sockets",
                                                           "received_fds", "open_failures")),
    "callbacks-2": (dict(nested=1, maxev=2), ("api_calls", "callbacks")),
    "hostile-callbacks": (dict(nested=1, maxev=1, hostile=1), ("api_calls", "headers")),
    "many-events": (dict(nested=0, maxev=4), ("api_calls", "callbacks")),
}


def lib_part(name, target="lib"):
    """libseat with the seatd backend under every sequence of API calls, server messages and failures"""
    def run(ctx, prop):
        import libseatd
        o, need = LIB[name]
        res = Result("libseat:" + name)
        t = time.time()
        opts = dict(o)
        opts.update(nofail=set(), env={b"LIBSEAT_BACKEND": o.get("backend", "seatd").encode()}, nproc=NPROC, budget=ctx.budget)
        opts["stop_on"] = lambda k: kind_prop(k, "lib") == prop
        eng = libseatd.run_lib(ctx.program(target), opts)
        from_engine(res, eng, "lib", need)
        res.bounds = {"undelivered events": o["maxev"], "calls from inside a callback": o["nested"], "hostile server": bool(o.get("hostile")),
                      "calls": "any number, in any order"}
        res.wall = time.time() - t
        return res
    run.__name__ = "libseat:" + name
    return run


# the client library with the logind and no-op backends
BUS = {
    "logind": (dict(backend="logind", nested=0, maxev=1),
               ("api_calls", "requests", "signatures", "signals", "handled", "acks", "message_reads", "containers", "property_reads", "matches",
                "pings", "pongs", "buses", "seats", "open_failures", "closings", "devices", "dispatches", "waits", "callbacks", "names",
                "errors_released", "messages_released", "bus_releases")),
    "logind-callbacks": (dict(backend="logind", nested=1, maxev=1), ("api_calls", "requests", "signals", "handled", "callbacks")),
    "logind-writes": (dict(backend="logind", nested=0, maxev=1, wq=1), ("api_calls", "requests", "signals", "handled", "callbacks")),
    "logind-bursts": (dict(backend="logind", nested=0, maxev=2), ("api_calls", "requests", "signals", "handled", "callbacks")),
    "noop": (dict(backend="noop", nested=1, maxev=1), ("api_calls", "sockets", "seats", "open_failures", "closings", "opens", "devices",
                                                     "dispatches", "callbacks", "waits", "names", "closes")),
}


def bus_part(name):
    """libseat with the logind or no-op backend under every sequence of API calls, signals, answers and failures"""
    def run(ctx, prop):
        import liblogind
        o, need = BUS[name]
        res = Result("libseat:" + name)
        t = time.time()
        opts = dict(o)
        opts.update(nofail=set(), env={b"LIBSEAT_BACKEND": o["backend"].encode()}, nproc=NPROC, budget=ctx.budget)
        opts["stop_on"] = lambda k: kind_prop(k, "lib") == prop
        eng = liblogind.run_bus(ctx.program("lib"), opts)
        from_engine(res, eng, "lib", need)
        res.bounds = {"signals per call": o["maxev"], "calls from inside a callback": o["nested"], "calls": "any number, in any order"}
        res.wall = time.time() - t
        return res
    run.__name__ = "libseat:" + name
    return run


def select_part(ctx, prop):
    """libseat/libseat.c: backend selection and forwarding"""
    import backsel
    res = Result("backend-selection")
    t = time.time()
    eng = backsel.run_select(ctx.program("lib"), {})
    from_engine(res, eng, "select", ("slots", "configurations", "attempts", "openings", "seats", "lookups", "forwarded_calls"))
    res.bounds = {"LIBSEAT_BACKEND": "unset, any string, and all near-miss spellings of each name", "backend outcomes": "all"}
    res.wall = time.time() - t
    return res


def log_part(target):
    """common/log.c: every level, handler history and message"""
    def run(ctx, prop):
        import logs
        res = Result("log:" + target)
        t = time.time()
        eng = logs.run_logs(ctx.program(target), {})
        from_engine(res, eng, "log", ("messages", "passed", "filtered", "handler_calls", "outcomes", "log_call_sites"))
        res.bounds = {"handler changes before a message": 3, "levels": "all named ones and values beyond them"}
        res.wall = time.time() - t
        return res
    run.__name__ = "log:" + target
    return run


def also(part, prop, kinds):
    """a part whose reports of other kinds also speak about this property"""
    def run(ctx, p):
        r = part(ctx, p)
        for x in r.reports:
            if x["kind"] in kinds:
                x["prop"] = prop
        return r
    run.__name__ = part.__name__
    return run


PROTO = ("S12.opcode", "S12.size", "S12.layout", "S12.fdcount", "S12.partial", "S13.consume", "S13.overrun")
S = server_part
C = conn_part
L = lib_part
B = bus_part
P = poller_part
BI = builtin_part
# property -> (quick parts, additional thorough parts)
PLAN = {
    "S01": ([S("one-client")], [S("faults"), S("two-clients")]),
    "S02": ([S("one-client"), S("two-clients")], [S("one-client-vt-2dev"), S("two-clients-2dev")]),
    "S03": ([S("one-client-vt"), S("revoke-two"), S("two-clients")], [S("two-clients-2dev"), S("two-clients-vt-dev")]),
    "S04": ([S("one-client"), S("faults"), S("one-client-vt")], [S("two-clients"), S("one-client-3dev"), S("two-clients-2dev")]),
    "S05": ([S("two-clients"), S("two-clients-vt")], [S("three-clients"), S("two-clients-faults")]),
    "S06": ([S("two-clients"), S("two-clients-vt")], [S("three-clients"), S("two-clients-faults")]),
    "S07": ([S("two-clients"), S("two-clients-vt")], [S("three-clients")]),
    "S08": ([S("one-client-vt"), S("two-clients-vt")], [S("faults-vt"), S("two-clients-vt-dev")]),
    "S09": ([S("one-client"), S("one-client-vt"), S("faults"), S("two-clients")],
            [S("faults-vt"), S("two-clients-vt"), S("three-clients"), S("two-clients-all")]),
    "S10": ([S("one-client"), S("one-client-vt"), S("faults"), S("two-clients")],
            [S("faults-vt"), S("two-clients-vt"), S("two-clients-faults"), S("three-clients"), S("two-clients-all")]),
    "S11": ([S("one-client"), S("faults"), S("one-client-vt")], [S("two-clients"), S("two-clients-faults"), S("faults-vt")]),
    "S12": ([S("one-client"), S("faults")], [S("two-clients"), S("two-clients-faults")]),
    "S13": ([S("one-client"), S("faults")], [S("two-clients-all")]),
    "S14": ([S("two-clients"), S("two-clients-faults")], [S("two-clients-2dev"), S("three-clients"), S("two-clients-vt")]),
    "S15": ([C()], [C(deep=True), C("lib")]),
    "S16": ([C()], [C(deep=True), C("lib")]),
    "S17": ([C(), P("sources"), L("api")], [C(deep=True), C("lib")]),
    "S18": ([P("sources"), S("one-client"), S("one-client-vt"), S("faults"), BI(False)], [S("two-clients"), S("two-clients-faults"), S("faults-vt")]),
    "S19": ([C(), S("one-client"), L("api"), L("builtin"), B("logind"), B("noop")], [C("lib"), S("two-clients"), L("callbacks")]),
    "S20": ([P("sources"), P("signals"), P("masks")], [P("nested"), P("two-signals"), P("all-sources")]),
    "S21": ([P("signals"), P("two-signals")], [P("bursts"), P("three-signals"), P("mixed")]),
    "S22": ([startup_part(False), startup_part(True)], []),
    "S23": ([launch_part], []),
    "S24": ([launch_part], []),
    "S33": ([log_part("lib"), log_part("seatd"), startup_part(False), launch_part], [startup_part(True)]),
    "S34": ([C(), S("faults"), S("two-clients-faults")], [S("faults-vt")]),
    "S25": ([select_part, L("api"), B("logind"), B("noop")], [L("callbacks"), B("logind-callbacks")]),
    "S31": ([B("logind")], [B("logind-callbacks"), B("logind-writes"), B("logind-bursts")]),
    "S32": ([B("logind"), B("logind-callbacks")], [B("logind-writes"), B("logind-bursts")]),
    "S35": ([C(), S("one-client"), S("faults"), BI(False), L("api"), L("builtin"), B("logind"), B("noop")], [L("callbacks"), L("hostile"), S("two-clients-all")]),
    "S26": ([L("api"), L("callbacks"), B("logind"), B("noop")], [L("callbacks-2"), L("hostile"), B("logind-callbacks"), B("logind-bursts")]),
    "S27": ([L("api"), L("callbacks"), B("logind"), B("noop")],
            [L("callbacks-2"), L("many-events"), B("logind-callbacks"), B("logind-bursts"), B("logind-writes")]),
    "S28": ([L("api"), L("hostile")], [L("callbacks"), L("hostile-callbacks")]),
    "S29": ([L("api"), L("callbacks"), L("hostile"), L("builtin"), B("logind"), B("noop")],
            [L("hostile-callbacks"), L("callbacks-2"), B("logind-callbacks"), B("logind-bursts"), B("logind-writes")]),
    "S30": ([L("api"), L("callbacks"), L("hostile"), L("builtin"), B("logind"), B("noop")],
            [L("hostile-callbacks"), L("callbacks-2"), B("logind-callbacks"), B("logind-bursts"), B("logind-writes")]),
    "S36": ([L("api"), also(S("one-client"), "S36", PROTO)], [L("callbacks-2"), also(S("two-clients"), "S36", PROTO)]),
    "S37": ([S("one-client"), S("one-client-vt"), S("faults"), BI(False), BI(True)], [S("two-clients-all"), S("one-client-3dev")]),
}

ASSUME = {
    "*": ["clang's -O0 IR (with promotion of locals to registers) faithfully represents the C source",
          "library and system calls behave as their documented interface allows (every documented outcome is explored)"],
}

SRV_NOTE = ("Path-sensitive abstract interpretation of the whole daemon from main() (a static dataflow/typestate analysis over "
            "LLVM IR): every event, request and system-call outcome is explored to a fixpoint for a bounded number of clients, "
            "devices and VTs; the reading side of the connection and poller interfaces is summarised by models.")
CONN_NOTE = ("Abstract interpretation of every function of common/connection.c from every ring state (fill level and cursor positions "
             "symbolic, all iovec layouts, partial transfers, every control-message layout and errno); the system calls are modelled "
             "by their documented interface; plus a who-may-call query for socket I/O over the whole program.")
POLL_NOTE = ("Abstract interpretation of seatd/poller.c and the list it uses, driven by every bounded sequence of API calls "
             "(from outside and from inside callbacks), event reports and failures; signals interrupt at every memory access that "
             "the handler can observe, found by an effect analysis of the handler. Bounds: sources and poll slots.")
START_NOTE = ("Abstract interpretation of the daemon's main() from its command line to its exit with a typestate for the socket path "
              "and the readiness descriptor; options in any number and order, every outcome of every call.")
LAUNCH_NOTE = ("Abstract interpretation of seatd-launch's main() in parent, daemon child and command child with typestates for "
               "privileges, socket and child processes; every outcome of every call, every wait status.")
LIB_NOTE = ("Abstract interpretation of libseat with the seatd backend: open, then every sequence of API calls, against a modelled "
            "server that answers by the protocol, fails, disappears or sends arbitrary bytes, split in any way; the connection layer "
            "is analysed with the callers. Bounds: undelivered events and nesting of calls from inside callbacks.")
PTECH = "path-sensitive typestate/dataflow analysis by abstract interpretation of LLVM IR"
TECH = {"*": ("whole-program typestate/dataflow analysis by abstract interpretation of LLVM IR", SRV_NOTE)}
for _ps, _n in ((("S15", "S16", "S17"), CONN_NOTE), (("S20", "S21"), POLL_NOTE), (("S22",), START_NOTE), (("S23", "S24"), LAUNCH_NOTE),
                (("S26", "S27", "S28", "S29", "S30", "S36"), LIB_NOTE)):
    for _p in _ps:
        TECH[_p] = (PTECH, _n)
TECH["S25"] = (PTECH, "Abstract interpretation of libseat/libseat.c with opaque backends: every listener, every value of LIBSEAT_BACKEND "
               "(a symbolic string and all near-miss spellings), every outcome of every backend; forwarding of each API call with "
               "symbolic arguments; completeness of the four backend tables; the requests the seatd backend makes for each call.")
TECH["S33"] = (PTECH, "Abstract interpretation of common/log.c from every level and handler history with every message level and an opaque "
               "handler that clobbers errno (typestate of the argument list, bounds of the level tables); a query over all logging "
               "call sites; the daemon's and the launcher's handling of the -l option.")
BUS_NOTE = ("Abstract interpretation of libseat with the logind and no-op backends: open, then every sequence of API calls, also from "
            "inside the listener, against a modelled bus (sd-bus and sd-login by their documented interface) that delivers every signal "
            "logind sends, answers or refuses every request, and disappears at any point.")
for _p in ("S31", "S32"):
    TECH[_p] = (PTECH, BUS_NOTE)
for _p in ("S26", "S27", "S29", "S30"):
    TECH[_p] = (PTECH, LIB_NOTE + " " + BUS_NOTE)
TECH["S19"] = (PTECH, LIB_NOTE + " The creation sites in the server and in the connection layer are covered by the analyses of those layers.")
TECH["S35"] = (PTECH, LIB_NOTE + " The server's side is decided by interpreting the whole daemon event by event.")

NOT_APPLICABLE = {
    "S38": "whether a revoked descriptor really loses access is decided by the kernel's drivers, whose source is not in the "
           "repository; the requests the server makes are decided by S03 and S04",
    "S39": "a quantitative bound on time under load is a runtime quantity that no static argument about this source can bound",
}
