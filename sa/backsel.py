"""Analysis of libseat/libseat.c: which backend libseat_open_seat tries, in every configuration, and what each API call forwards to.
The backends' open functions are opaque: each of them succeeds or fails with any errno."""
import time
from dom import *
from engine import Engine, AnalysisError
from models import Models, EINVAL, MAXERR

BACKENDS = ("seatd", "logind", "builtin", "noop")
SLOTS = ("open_seat", "disable_seat", "close_seat", "seat_name", "open_device", "close_device", "switch_session", "get_fd", "dispatch")
# arguments of each API function beside the seat
CALLS = {"disable_seat": (), "close_seat": (), "seat_name": (), "open_device": ("str", "ptr"), "close_device": ("int",),
         "switch_session": ("int",), "get_fd": (), "dispatch": ("int",)}
VAR = b"LIBSEAT_BACKEND"


class SelectModels(Models):
    boundary = frozenset(["_logf", "log_init", "libseat_set_log_level"])

    def __init__(self, prog, opts):
        super().__init__()
        self.prog = prog
        self.opener = {}

    def setup(self, eng, st):
        slot = {s: self.prog.field("seat_impl", s)[0] for s in SLOTS}
        for b in BACKENDS:
            g = b + "_impl"
            if g not in self.prog.globals:
                raise AnalysisError(f"backend table {g} not found")
            t = eng.global_ptr(st, g)
            for s in SLOTS:
                v = st.getcell(t.oid, slot[s], 8)
                eng.count("slots")
                if v.__class__ is not Fn:
                    eng.report("S25.table", st, f"backend {b} does not provide {s}", key=(b, s))
                elif s == "open_seat":
                    if v.name in self.opener:
                        eng.report("S25.table", st, f"backends {b} and {self.opener[v.name]} are opened by the same "
                                   "function", key=b)
                    self.opener[v.name] = b
        for n in self.opener:
            self.tab[n] = self.open_model(n)
        self.boundary = SelectModels.boundary | frozenset(self.opener)

    def open_model(self, name):
        def f(eng, st, ins, a):
            b = self.opener[name]
            eng.count("attempts")
            m = st.mon
            if m.get("~seat"):
                eng.report("S25.order", st, f"backend {b} is tried although another backend already opened the seat")
                return []
            tried = m.get("~tried", ())
            if b in tried:
                eng.report("S25.order", st, f"backend {b} is tried twice")
                return []
            if not m["~complete"]:
                eng.report("S25.listener", st, f"backend {b} is tried although the listener is missing or incomplete")
                return []
            if a[0] != m["~listener"] or a[1] != m["~data"]:
                eng.report("S25.forward", st, f"backend {b} does not get the caller's listener and data")
                return []
            if "~env" not in m:
                if b == "noop":
                    eng.report("S25.noop", st, "the no-op backend is tried although it was not asked for by name")
                    return []
                want = [x for x in BACKENDS[:3] if x not in tried]
                if want[0] != b:
                    eng.report("S25.order", st, f"backend {b} is tried before {want[0]}")
                    return []
            else:
                # every spelling is a separate initial state, one of them an arbitrary string
                name_ = self.content(st, m["~env"])
                if name_[0] == "atom":
                    x = st.norm(name_[1]).t[0][0]
                    known = [y[1] for y in st.atoms[x].facts if y[0] == "eqc"]
                else:
                    known = [name_[1]]
                if known != [b.encode()]:
                    eng.report("S25.named", st, f"backend {b} is tried although LIBSEAT_BACKEND does not name it" +
                               (f" but is '{known[0].decode()}'" if known else ""))
                    return []
            m["~tried"] = tried + (b,)
            s = self.failed(eng, st, note=f"backend {b} fails")
            s.mon["~why"] = s.norm(self.errno(eng, s))
            oid = st.new("heap", "seat of " + b, self.prog.sizeof("libseat"), "zero")
            st.setcell(oid, self.prog.field("libseat", "impl")[0], 8, eng.global_ptr(st, b + "_impl"))
            m["~seat"] = Ptr(oid, 0)
            st.note(f"backend {b} opens the seat")
            return [(s, 0), (st, m["~seat"])]
        return f

    def f_getenv(self, eng, st, ins, a):
        n = self.cstr(st, a[0])
        if n == VAR:
            eng.count("lookups")
            if "~env" in st.mon:
                return [(st, st.mon["~env"])]
            return [(st, 0)]
        return Models.f_getenv(self, eng, st, ins, a)

    f_secure_getenv = f_getenv

    # ---- forwarding
    def callback(self, eng, st, ins, cb, vals):
        m = st.mon
        if "~want" not in m or cb[0] != "slot":
            return self.unknown(eng, st, ins, "callback:" + str(cb), vals)
        eng.count("forwards")
        want, args = m["~want"]
        if cb[1] != want:
            eng.report("S25.forward", st, f"libseat_{want} is forwarded to the backend's {cb[1]}")
            return []
        if m.get("~called"):
            eng.report("S25.forward", st, f"libseat_{want} calls the backend twice")
            return []
        if len(vals) != len(args) or any(self.same(st, x, y) is not True for x, y in zip(vals, args)):
            eng.report("S25.forward", st, f"libseat_{want} does not pass on the caller's arguments")
            return []
        self.set_errno(eng, st, st.fresh(0, MAXERR))
        m["~errno"] = st.norm(self.errno(eng, st))
        r = st.new("ext", "name", None, "sym") if want == "seat_name" else None
        m["~called"] = (Ptr(r, 0) if r is not None else st.fresh(-(1 << 31), (1 << 31) - 1),)
        return [(st, m["~called"][0])]

    def same(self, st, x, y):
        if x.__class__ in (int, Lin) and y.__class__ in (int, Lin):
            x, y = st.norm(x), st.norm(y)
            return x == y or st.eq0(sub(x, y))
        return x == y


class Exit:
    def __init__(self, m, eng):
        self.m, self.eng = m, eng

    def rep(self, kind, st, msg, fn):
        self.eng.exit_at = (f"{self.eng.short(fn.file)}:{fn.line}", fn.src)
        self.eng.report(kind, st, msg)

    def __call__(self, st, v):
        eng, m = self.eng, st.mon
        e = st.norm(self.m.errno(eng, st))
        v = st.norm(v) if v.__class__ is Lin else v
        if "~want" in m:
            op = m["~want"][0]
            fn = self.fn("libseat_" + op)
            eng.count("forwarded_calls")
            if not m.get("~called"):
                return self.rep("S25.forward", st, f"libseat_{op} returns without calling the backend", fn)
            if self.m.same(st, v, m["~called"][0]) is not True:
                return self.rep("S25.forward", st, f"libseat_{op} does not return the backend's result", fn)
            if self.m.same(st, e, m["~errno"]) is not True:
                return self.rep("S25.forward", st, f"libseat_{op} changes the errno the backend left", fn)
            return
        fn = self.fn("libseat_open_seat")
        eng.count("openings")
        tried = m.get("~tried", ())
        null = v == 0
        if not m["~complete"]:
            if not null:
                self.rep("S25.listener", st, "a seat is returned for an incomplete listener", fn)
            elif e != EINVAL:
                self.rep("S25.listener", st, "an incomplete listener is not refused with EINVAL", fn)
            return
        if m.get("~seat"):
            eng.count("seats")
            if v != m["~seat"]:
                self.rep("S25.result", st, "the seat a backend opened is not returned", fn)
            return
        if not null:
            return self.rep("S25.result", st, "a seat is returned although no backend opened one", fn)
        if st.ge0(add(e, -1)) is not True:
            return self.rep("S25.errno", st, "no seat is returned but errno does not say why", fn)
        if "~env" not in m:
            miss = [b for b in BACKENDS[:3] if b not in tried]
            if miss:
                self.rep("S25.order", st, f"opening fails although backend {miss[0]} was not tried", fn)
            return
        if tried:
            if self.m.same(st, e, m["~why"]) is not True:
                self.rep("S25.errno", st, "the errno of the backend asked for is lost", fn)
            return
        name = self.m.content(st, m["~env"])
        if name[0] == "atom":
            facts = st.atoms[st.norm(name[1]).t[0][0]].facts
            no = {f[1] for f in facts if f[0] == "neqc"}
            eq = [f[1] for f in facts if f[0] == "eqc"]
            miss = [b for b in BACKENDS if (eq == [b.encode()]) or (not eq and b.encode() not in no and not any(f[0] == "npfx" and b.encode().startswith(f[1]) for f in facts))]
        else:
            miss = [b for b in BACKENDS if name[1] == b.encode()]
        if miss:
            self.rep("S25.named", st, f"backend {miss[0]} is named by LIBSEAT_BACKEND but not tried", fn)

    def fn(self, src):
        f = self.eng.prog.funcs.get(src)
        if f is None:
            raise AnalysisError(f"{src} not found")
        return f


def spellings():
    out = []
    for b in BACKENDS:
        out += [b, b + "x", b[:-1], b[1:], b.upper(), b.capitalize(), " " + b, b + " ", b[0]]
    return sorted(set(out + ["", "auto", "none", "libseat", "seatd,logind", "0"]))


def run_select(prog, opts):
    m = SelectModels(prog, opts)
    eng = Engine(prog, m, "select", opts)
    eng.stop_on = opts.get("stop_on")
    eng.exit_at = ("libseat/libseat.c", "impls")
    base = eng.initial()
    m.setup(eng, base)
    starts = []
    lsz = prog.sizeof("libseat_seat_listener")
    offs = [prog.field("libseat_seat_listener", s)[0] for s in ("enable_seat", "disable_seat")]

    def start(fn, args, st):
        f = prog.funcs.get(fn)
        if f is None:
            raise AnalysisError(f"library function {fn} not found")
        eng.call(st, f.name, args)
        starts.append(st)

    for kind in ("null", "empty", "no-enable", "no-disable", "complete"):
        if kind != "complete":
            envs = [None, b"seatd", b"noop", b"nonsense"]
        else:
            envs = [None, 0] + [s.encode() for s in spellings()]
        for env in envs:
            st = base.copy()
            lis = 0
            if kind != "null":
                lo = st.new("ext", "listener", lsz, "zero")
                for i, o in enumerate(offs):
                    if kind == "complete" or kind == ("no-disable", "no-enable")[i]:
                        cb = st.new("ext", "listener callback", 8, "sym")
                        st.mem[cb].ghost["$callback"] = ("cb", i)
                        st.setcell(lo, o, 8, Ptr(cb, 0))
                lis = Ptr(lo, 0)
            data = Ptr(st.new("ext", "user data", 8, "sym"), 0)
            st.mon["~complete"] = kind == "complete"
            st.mon["~listener"], st.mon["~data"] = lis, data
            if env is not None:
                oid = st.new("ext", "value of LIBSEAT_BACKEND", None, "sym")
                st.mem[oid].ghost["$str"] = ("const", env) if env != 0 else ("atom", st.fresh(0, 1 << 62, kind="str"))
                st.mon["~env"] = Ptr(oid, 0)
            st.note(f"listener {kind}, LIBSEAT_BACKEND " + ("unset" if env is None else "any string" if env == 0 else repr(env.decode())))
            eng.count("configurations")
            m.set_errno(eng, st, st.fresh(0, MAXERR))
            start("libseat_open_seat", [lis, data], st)
    for op, kinds in CALLS.items():
        st = base.copy()
        tab = st.new("ext", "operations of a backend", prog.sizeof("seat_impl"), "zero")
        for s in SLOTS:
            cb = st.new("ext", "operation " + s, 8, "sym")
            st.mem[cb].ghost["$callback"] = ("slot", s)
            st.setcell(tab, prog.field("seat_impl", s)[0], 8, Ptr(cb, 0))
        seat = st.new("heap", "seat", prog.sizeof("libseat"), "zero")
        st.setcell(seat, prog.field("libseat", "impl")[0], 8, Ptr(tab, 0))
        args = [Ptr(seat, 0)]
        for k in kinds:
            if k == "int":
                args.append(st.fresh(-(1 << 31), (1 << 31) - 1))
            elif k == "str":
                args.append(m.extstr(eng, st, "device path"))
            else:
                args.append(Ptr(st.new("ext", "result", 4, "zero"), 0))
        st.mon["~want"] = (op, tuple(args))
        m.set_errno(eng, st, st.fresh(0, MAXERR))
        start("libseat_" + op, args, st)
    eng.run(starts, Exit(m, eng))
    return eng
