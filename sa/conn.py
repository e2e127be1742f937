"""Analysis of the connection layer (common/connection.c): each API function is interpreted abstractly from an arbitrary
ring-buffer state -- tail = 256*Q + R, head = tail + s for every Q, R and every fill level s -- and its effect on the buffers,
the copied byte ranges, the descriptors and the socket calls is compared with what a bounded FIFO has to do."""
import time
from dom import *
from engine import Engine, AnalysisError, PUSHED
from models import Models, EAGAIN, EINTR, MAXERR

EOVERFLOW = 75
MSG_DONTWAIT, MSG_NOSIGNAL, MSG_CMSG_CLOEXEC = 0x40, 0x4000, 0x40000000
RINGS = ("in", "out", "fds_in", "fds_out")
U32 = 1 << 32
RING = 256     # capacity of a buffer; set from its declaration


class ConnEngine(Engine):
    """adds sub-object bounds for the connection and a log of which bytes were copied where"""

    def region(self, st, off, n):
        """(start, end, name) of the connection field an access belongs to, or None"""
        lo, hi = st.rng(off) if off.__class__ is Lin else (off, off)
        for a, b, name in self.fields:
            if a <= lo < b:
                return a, b, name
        return None

    def check_ptr(self, st, p, n, what, write=False):
        if not Engine.check_ptr(self, st, p, n, what, write):
            return False
        if p.__class__ is Ptr and p.oid == self.conn_oid:
            if n.__class__ is int and p.off.__class__ is int and n == st.mem[p.oid].size:
                return True
            r = self.region(st, p.off, n)
            if r is None or not (st.ge0(sub(p.off, r[0])) and st.ge0(sub(r[1], add(p.off, n)))):
                self.report("S15.bounds", st, f"{what} of {n if n.__class__ is int else 'up to ' + str(st.rng(n)[1])} bytes may leave "
                            f"the buffer {r[2] if r else ''}".rstrip(), key=("b", what))
                return False
        return True

    def ident(self, st, oid, off, n):
        """[(state, value)] value with identity of n bytes at a tracked place"""
        log = st.mon.get("~log", ())
        mine = [e for e in log if e[0] == oid]
        if len(mine) > 1:
            v = self.ident_ring(st, mine, off, n)
            if v is not None:
                return [(st, v)]
        for e in reversed(mine):
            d, src, so, ln = e[1:]
            g1, g2 = st.ge0(sub(off, d)), st.ge0(sub(add(d, ln), add(off, n)))
            if g1 and g2:
                if src.__class__ is tuple and src and src[0] == "val":
                    if st.eq0(sub(off, d)) is True and ln == n and so == 0:
                        return [(st, st.norm(src[1]))]
                    return [(st, st.fresh(-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1))]
                return [(st, self.source(st, src, add(so, sub(off, d)), n))]
            # provably disjoint?
            if st.ge0(sub(d, add(off, n))) or st.ge0(sub(off, add(d, ln))):
                continue
            out = []
            s = st.copy()
            if s.assume_ge0(s.norm(sub(off, d))) and s.assume_ge0(s.norm(sub(add(d, ln), add(off, n)))):
                out += self.ident(s, oid, s.norm(off), n)
            s = st.copy()
            if s.assume_ge0(s.norm(sub(d, add(off, n)))):
                out += self.ident(s, oid, s.norm(off), n)
            if st.assume_ge0(st.norm(sub(off, add(d, ln)))):
                out += self.ident(st, oid, st.norm(off), n)
            return out
        return [(st, self.source(st, oid, off, n))]

    def ident_ring(self, st, segs, off, n):
        """an array assembled from several pieces of one ring whose positions are consistent modulo its size"""
        name = None
        const = None
        pos = 0
        left = list(segs)
        while left:
            hit = [e for e in left if st.eq0(sub(e[1], pos)) is True]
            if len(hit) != 1 or hit[0][2] != self.conn_oid:
                return None
            e = hit[0]
            left.remove(e)
            r = self.region(st, e[3], 1)
            if r is None or not r[2].endswith(".data") or (name is not None and r[2] != name):
                return None
            name = r[2]
            c = modring(st.norm(sub(sub(e[3], r[0]), e[1])))
            if const is not None and not modeq(st, sub(c, const)):
                return None
            const = c if const is None else const
            pos = st.norm(add(pos, e[4]))
        if not st.ge0(off) or not st.ge0(sub(pos, add(off, n))):
            return None
        return self.source(st, ("ring", name), add(const, off), n)

    def source(self, st, oid, off, n):
        if oid == self.conn_oid:
            r = self.region(st, off, n)
            oid, off = ("ring", r[2]), sub(off, r[0])
        if oid.__class__ is tuple:
            off = modring(st.norm(off))
        key = ("src", oid, off, n)
        v = st.memo.get(key)
        if v is None:
            v = st.memo[key] = st.fresh(-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1, facts=[("src", oid, off, n)])
        return st.norm(v)

    def tracked(self, st, oid, off):
        if oid == self.conn_oid:
            r = self.region(st, off, 1)
            return r is not None and r[2].endswith(".data")
        o = st.mem.get(oid)
        return o is not None and (o.ghost.get("track") or any(e[0] == oid for e in st.mon.get("~log", ())))

    def load(self, st, p, n, what="read"):
        if p.__class__ is Ptr and self.tracked(st, p.oid, p.off):
            if not self.check_ptr(st, p, n, what):
                return []
            off = st.norm(p.off)
            if off.__class__ is int:
                c = st.mem[p.oid].cells.get(off)
                if c is not None and c[0] == n and p.oid != self.conn_oid:
                    return [(st, st.norm(c[1]))]
            return self.ident(st, p.oid, off, n)
        if p.__class__ is Ptr and n == 1 and p.off.__class__ is int and p.oid in st.mem:
            # one byte of a wider value: remember which
            for w in (2, 4, 8):
                o = p.off - p.off % w
                c = st.mem[p.oid].cells.get(o)
                if c is not None and c[0] == w and c[1].__class__ is Lin and self.check_ptr(st, p, n, what):
                    return [(st, st.fresh(-128, 127, facts=[("part", st.norm(c[1]), p.off - o)]))]
        return Engine.load(self, st, p, n, what)

    def store(self, st, p, n, v, what="write"):
        if p.__class__ is Ptr and self.tracked(st, p.oid, p.off):
            if not self.check_ptr(st, p, n, what, True):
                return []
            v = st.norm(v)
            if v.__class__ is Lin and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
                for f in st.atoms[v.t[0][0]].facts:
                    if f[0] == "src" and f[3] == n and f[1].__class__ is int:
                        self.log(st, p.oid, st.norm(p.off), f[1], f[2], n)
                        return [st]
                    if f[0] == "src" and f[3] == n:
                        b = [q[0] for q in self.fields if q[2] == f[1][1]][0]
                        self.log(st, p.oid, st.norm(p.off), self.conn_oid, add(b, f[2]), n)
                        return [st]
            off = st.norm(p.off)
            if p.oid != self.conn_oid and off.__class__ is int:
                st.setcell(p.oid, off, n, v)
                return [st]
            if n == 1 and v.__class__ is Lin and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
                for f in st.atoms[v.t[0][0]].facts:
                    if f[0] == "part":
                        self.log(st, p.oid, off, ("val", f[1]), f[2], n)
                        return [st]
            self.log(st, p.oid, off, ("val", v), 0, n)
            return [st]
        if p.__class__ is Ptr and n == 1 and p.oid in st.mem and st.mem[p.oid].size != 1:
            v = st.norm(v)
            if v.__class__ is Lin and v.c == 0 and len(v.t) == 1 and v.t[0][1] == 1:
                for f in st.atoms[v.t[0][0]].facts:
                    if f[0] == "src" and f[3] == 1 and self.check_ptr(st, p, n, what, True):
                        b = 0 if f[1].__class__ is int else [q[0] for q in self.fields if q[2] == f[1][1]][0]
                        off = st.norm(p.off)
                        if off.__class__ is int:
                            st.setcell(p.oid, off, 1, v)
                        self.log(st, p.oid, off, f[1] if f[1].__class__ is int else self.conn_oid, add(b, f[2]), 1)
                        return [st]
        return Engine.store(self, st, p, n, v, what)

    def log(self, st, d, doff, s, soff, n):
        lg = st.mon.get("~log", ())
        if lg and (s.__class__ is int or s[0] == "val"):
            e = lg[-1]
            if e[0] == d and e[2] == s and st.eq0(sub(doff, add(e[1], e[4]))) and st.eq0(sub(soff, add(e[3], e[4]))):
                st.mon["~log"] = lg[:-1] + ((d, e[1], s, e[3], add(e[4], n)),)
                return
        # entries this copy overwrites completely do not count any more
        lg = tuple(e for e in lg if e[0] != d or not (st.ge0(sub(e[1], doff)) and st.ge0(sub(add(doff, n), add(e[1], e[4])))))
        st.mon["~log"] = lg + ((d, doff, s, soff, n),)


def modring(e):
    return mk(e.c % RING, {a: k % RING for a, k in e.t}) if e.__class__ is Lin else e % RING


def expand(runs):
    for s, o, n in runs:
        for i in range(n):
            yield s, add(o, 4 * i) if i else o


def modeq(st, e, m=None):
    """e == 0 modulo m, provably"""
    m = m or RING
    e = st.norm(e)
    if e.__class__ is int:
        return e % m == 0
    e = mk(e.c % m, {a: k % m for a, k in e.t})
    if e.__class__ is int:
        return e % m == 0
    lo, hi = st.rng(e)
    for k in range(lo // m, hi // m + 1):
        if st.eq0(add(e, -k * m)):
            return True
    return False


class ConnModels(Models):
    def __init__(self, prog, eng_opts):
        super().__init__()
        self.prog = prog
        self.base = {}

    # ---- copies
    def f_memcpy(self, eng, st, ins, a):
        d, s, n = a[0], a[1], a[2]
        out = []
        for st, n in eng.resolve(st, n, 64, False):
            if n == 0:
                out.append((st, d))
                continue
            if not eng.check_ptr(st, s, n, "copy source") or not eng.check_ptr(st, d, n, "copy target", True):
                continue
            ts = eng.tracked(st, s.oid, s.off)
            td = eng.tracked(st, d.oid, d.off)
            if not ts and not td:
                out += Models.f_memcpy(self, eng, st, ins, [d, s, n])
                continue
            eng.count("copies")
            soff, doff = st.norm(s.off), st.norm(d.off)
            if not ts:
                # a plain local value
                v = st.getcell(s.oid, soff, n) if n.__class__ is int and soff.__class__ is int and n <= 8 else None
                if v is UNDEF:
                    eng.report("mem.uninit", st, "uninitialised bytes are copied into the buffer")
                eng.log(st, d.oid, doff, ("val", v), 0, n)
                out.append((st, d))
                continue
            if d.oid != eng.conn_oid and not (st.mem[d.oid].ghost.get("track")) and n.__class__ is int and n <= 8 and n == st.mem[d.oid].size \
                    and doff.__class__ is int:
                # a value read into a local variable
                for s2, v in eng.load(st, Ptr(s.oid, soff), n):
                    s2.setcell(d.oid, doff, n, v)
                    out.append((s2, d))
                continue
            # compose with what the source was copied from
            lg = [e for e in st.mon.get("~log", ()) if e[0] == s.oid] if s.oid != eng.conn_oid else []
            done = False
            for e in lg:
                if st.ge0(sub(soff, e[1])) and st.ge0(sub(add(e[1], e[4]), add(soff, n))) and e[2].__class__ is int:
                    eng.log(st, d.oid, doff, e[2], add(e[3], sub(soff, e[1])), n)
                    done = True
                    break
            if not done:
                inside = [e for e in lg if st.ge0(sub(e[1], soff)) and st.ge0(sub(add(soff, n), add(e[1], e[4])))]
                tot = 0
                for e in inside:
                    tot = add(tot, e[4])
                if inside and st.eq0(sub(tot, n)):
                    for e in inside:
                        eng.log(st, d.oid, add(doff, sub(e[1], soff)), e[2], e[3], e[4])
                else:
                    eng.log(st, d.oid, doff, s.oid, soff, n)
            out.append((st, d))
        return out

    # ---- socket calls
    def msghdr(self, eng, st, p, what):
        if not eng.check_ptr(st, p, 56, what):
            return None
        iov, n = st.getcell(p.oid, p.off + 16, 8), st.getcell(p.oid, p.off + 24, 8)
        ctl, cl = st.getcell(p.oid, p.off + 32, 8), st.getcell(p.oid, p.off + 40, 8)
        fl = st.getcell(p.oid, p.off, 8)
        if UNDEF in (iov, n, ctl, cl, fl):
            eng.report("mem.uninit", st, f"{what} with an uninitialised message header")
            return None
        if n.__class__ is not int or not 1 <= n <= 16:
            eng.report("S15.iov", st, f"{what}: invalid number of I/O vectors")
            return None
        parts = []
        for i in range(n):
            if not eng.check_ptr(st, Ptr(iov.oid, iov.off + 16 * i) if iov.__class__ is Ptr else iov, 16, what + " I/O vector"):
                return None
            b, l = st.getcell(iov.oid, iov.off + 16 * i, 8), st.getcell(iov.oid, iov.off + 16 * i + 8, 8)
            if b is UNDEF or l is UNDEF:
                eng.report("mem.uninit", st, f"{what} with an uninitialised I/O vector")
                return None
            parts.append((b, l))
        return parts, ctl, cl

    def ring(self, eng, st, name):
        ho, to, do = eng.rings[name]
        h = st.norm(st.getcell(eng.conn_oid, ho, 4))
        t = st.norm(st.getcell(eng.conn_oid, to, 4))
        s = st.norm(sub(h, t))
        lo, hi = st.rng(s)
        if hi >= U32 or lo < 0:
            s = add(s, -((hi // U32) * U32))
        return h, t, s, do

    def check_fd(self, eng, st, v, what):
        if not st.eq0(sub(st.norm(v), eng.fdv)):
            eng.report("S17.fd", st, f"{what} on another descriptor than the connection's")

    def positions(self, eng, st, parts, start, do, limit, what):
        """total length; the vectors must be start, start+1, ... modulo the buffer size and within the limit"""
        tot = 0
        for b, l in parts:
            for s2, lv in eng.resolve(st, l, 64, False):
                l = lv
            if l == 0:
                continue
            if b.__class__ is not Ptr or b.oid != eng.conn_oid:
                eng.report("S15.iov", st, f"{what}: an I/O vector does not point into the connection's buffer")
                return None
            if not eng.check_ptr(st, b, l, what):
                return None
            if not (st.ge0(add(b.off, -do)) and st.ge0(sub(do + RING, add(b.off, l)))):
                eng.report("S15.iov", st, f"{what}: an I/O vector points into another buffer")
                return None
            if not modeq(st, sub(sub(b.off, do), add(start, tot))):
                eng.report("S15.order", st, f"{what}: the I/O vectors do not cover the buffer positions in order")
                return None
            tot = st.norm(add(tot, l))
        if not st.ge0(sub(limit, tot)):
            eng.report("S15.iov", st, f"{what}: the I/O vectors cover more than the " +
                       ("queued bytes" if "send" in what else "free space"))
            return None
        if st.ge0(add(tot, -1)) is not True:
            eng.report("S15.iov", st, f"{what}: nothing is transferred although the buffer is not " + ("empty" if "send" in what else "full"))
            return None
        return tot

    def f_sendmsg(self, eng, st, ins, a):
        eng.count("sendmsg")
        self.check_fd(eng, st, a[0], "sendmsg")
        fl = a[2]
        if fl.__class__ is not int or not fl & MSG_DONTWAIT:
            eng.report("S17.block", st, "a send on a client socket can block (no MSG_DONTWAIT)")
        if fl.__class__ is not int or not fl & MSG_NOSIGNAL:
            eng.report("S17.sigpipe", st, "a send can raise SIGPIPE (no MSG_NOSIGNAL)")
        m = self.msghdr(eng, st, a[1], "sendmsg")
        if m is None:
            return []
        parts, ctl, cl = m
        h, t, size, do = self.ring(eng, st, "out")
        self.sync(eng, st)
        tot = self.positions(eng, st, parts, t, do, size, "sendmsg")
        if tot is None:
            return []
        # descriptors
        fh, ft, fsize, fdo = self.ring(eng, st, "fds_out")
        nf = 0
        if ctl.__class__ is int and ctl == 0 or (cl.__class__ is int and cl == 0):
            z = st.eq0(fsize)
            if z is not True:
                eng.report("S16.unsent", st, "queued descriptors are not sent with the next bytes")
                return []
        else:
            if ctl.__class__ is not Ptr or not eng.check_ptr(st, ctl, cl, "control message"):
                return []
            lvl, ty, ln = (st.getcell(ctl.oid, ctl.off + 8, 4), st.getcell(ctl.oid, ctl.off + 12, 4), st.getcell(ctl.oid, ctl.off, 8))
            if UNDEF in (lvl, ty, ln):
                eng.report("mem.uninit", st, "an uninitialised control message header is sent")
                return []
            if lvl != 1 or ty != 1:
                eng.report("S16.cmsg", st, "the control message is not SOL_SOCKET/SCM_RIGHTS")
            nf = st.norm(sub(ln, 16))
            if not st.eq0(sub(nf, fsize)):
                eng.report("S16.cmsg", st, "the control message does not announce exactly the queued descriptors")
            if not st.ge0(sub(cl, ln)):
                eng.report("S16.cmsg", st, "the control message is longer than its announced buffer")
            segs = [e for e in st.mon.get("~log", ()) if e[0] == ctl.oid]
            self.covers(eng, st, [(sub(e[1], ctl.off + 16), e[2], e[3], e[4]) for e in segs], nf, eng.conn_oid,
                        lambda i: add(ft, i), fdo, "S16.cmsg", "the control message does not carry the queued descriptors in order")
        out = []
        s = st.copy()
        self.set_errno(eng, s, EINTR)
        s.note("sendmsg is interrupted")
        s.mon["~intr"] = 1
        out.append((s, -1))
        s = self.failed(eng, st, ne=[EINTR], note="sendmsg fails")
        s.mon.pop("~intr", None)
        s.mon["~io"] = "fail"
        out.append((s, -1))
        st.mon.pop("~intr", None)

        def done(x, L):
            x.mon["~io"] = "ok"
            x.mon["~tail"] = x.norm(add(x.mon.get("~tail", t), L))
            x.mon["~total"] = x.norm(add(x.mon.get("~total", 0), L))
            if nf != 0:
                x.mon["~fdsent"] = 1
        np = st.mon.get("~partials", 0)
        if np < eng.opts.get("partials", 2):
            s = st.copy()
            if s.assume_ge0(add(tot, -2)):
                L = s.fresh(1, RING - 1)
                if s.assume_ge0(sub(add(tot, -1), L)):
                    s.mon["~partials"] = np + 1
                    done(s, L)
                    s.note("sendmsg sends a part")
                    out.append((s, s.norm(L)))
        done(st, tot)
        out.append((st, tot))
        return out

    def sync(self, eng, st):
        """the buffer must already reflect the bytes and descriptors sent before"""
        h, t, size, do = self.ring(eng, st, "out")
        if "~tail" in st.mon and not modeq(st, sub(t, st.mon["~tail"]), U32):
            eng.report("S15.consume", st, "bytes that were sent are not removed from the buffer exactly once")
        if st.mon.get("~fdsent") == 1:
            fsize = self.ring(eng, st, "fds_out")[2]
            if st.eq0(fsize) is not True:
                eng.report("S16.twice", st, "descriptors stay queued after they were sent")
            self.closed_all(eng, st, "fds_out", "sent")
            st.mon["~fdsent"] = 2

    def covers(self, eng, st, segs, n, srcoid, srcpos, srcbase, kind, msg, modulo=0):
        """segments (dst, src, srcoff, len) must map dst i -> source position srcpos(i) for every i in [0, n)"""
        modulo = RING if modulo == 0 else modulo
        segs = [e for e in segs]
        pos = 0
        while segs:
            if st.eq0(sub(n, pos)) is True:
                break
            hit = None
            for e in segs:
                if st.eq0(sub(e[0], pos)) is True:
                    hit = e
            if hit is None:
                eng.report(kind, st, msg)
                return False
            segs.remove(hit)
            if hit[1] != srcoid:
                eng.report(kind, st, msg)
                return False
            d = sub(sub(hit[2], srcbase), srcpos(pos))
            if not (modeq(st, d, modulo) if modulo else st.eq0(d)):
                eng.report(kind, st, msg)
                return False
            pos = st.norm(add(pos, hit[3]))
        if not st.eq0(sub(n, pos)) is True:
            eng.report(kind, st, msg)
            return False
        return True

    def closed_all(self, eng, st, ring, what):
        """every slot that was in the descriptor ring at the start was closed exactly once"""
        h0, t0, s0 = eng.start[ring]
        got = set()
        for oid, d in expand(st.mon.get("~closed", ())):
            if oid != ("ring", ring + ".data"):
                continue
            if d.__class__ is not int:
                eng.report("S16.close", st, f"a descriptor other than the {what} ones is closed")
                return False
            if d in got:
                eng.report("S16.twice", st, f"a {what} descriptor is closed twice")
                return False
            got.add(d)
        if got != set(range(0, 4 * len(got), 4)) or st.eq0(sub(st.norm(s0), 4 * len(got))) is not True:
            eng.report("S16.close", st, f"not every {what} descriptor is closed")
            return False
        eng.count("fd_sets_closed")
        return True

    def closed_none(self, eng, st, what):
        if st.mon.get("~closed"):
            eng.report("S16.early", st, f"descriptors are closed although {what}")

    def f_recvmsg(self, eng, st, ins, a):
        eng.count("recvmsg")
        self.check_fd(eng, st, a[0], "recvmsg")
        fl = a[2]
        if fl.__class__ is not int or not fl & MSG_DONTWAIT:
            eng.report("S17.block", st, "a receive on a client socket can block (no MSG_DONTWAIT)")
        if fl.__class__ is not int or not fl & MSG_CMSG_CLOEXEC:
            eng.report("S19.recv", st, "received descriptors are not close-on-exec (no MSG_CMSG_CLOEXEC)")
        m = self.msghdr(eng, st, a[1], "recvmsg")
        if m is None:
            return []
        parts, ctl, cl = m
        h, t, size, do = self.ring(eng, st, "in")
        tot = self.positions(eng, st, parts, h, do, sub(RING, size), "recvmsg")
        if tot is None:
            return []
        out = []
        s = st.copy()
        self.set_errno(eng, s, EINTR)
        s.mon["~intr"] = 1
        s.note("recvmsg is interrupted")
        out.append((s, -1))
        s = self.failed(eng, st, ne=[EINTR], note="recvmsg fails")
        s.mon.pop("~intr", None)
        s.mon["~io"] = "fail"
        out.append((s, -1))
        st.mon.pop("~intr", None)
        msg = a[1]
        s = st.copy()
        s.mon["~io"] = "eof"
        s.setcell(msg.oid, msg.off + 40, 8, 0)
        s.note("recvmsg reports the end of the stream")
        out.append((s, 0))
        L = st.fresh(1, RING)
        if not st.assume_ge0(sub(tot, L)):
            return out
        st.mon["~io"] = "ok"
        st.mon["~len"] = L
        s = st.copy()
        s.setcell(msg.oid, msg.off + 40, 8, 0)
        out.append((s, s.norm(L)))
        if ctl.__class__ is not Ptr or (cl.__class__ is int and cl == 0):
            eng.report("S16.nocontrol", st, "descriptors sent by the peer would be discarded: no room for control messages")
            return out
        if not eng.check_ptr(st, ctl, cl, "control buffer", True):
            return out
        if cl.__class__ is not int:
            raise AnalysisError("control buffer length is not constant")
        room = (cl - 16) // 4

        def rec(x, off, level, ty, m):
            x.setcell(ctl.oid, off, 8, add(16, scale(m, 4)))
            x.setcell(ctl.oid, off + 8, 4, level)
            x.setcell(ctl.oid, off + 12, 4, ty)
        cases = []
        s = st.copy()
        k = s.fresh(1, room)
        cases.append((s, [(0, 1, 1, k)], add(16, scale(k, 4)), "one control message with descriptors"))
        if room >= 20:
            cases.append((st.copy(), [(0, 1, 1, 2), (24, 1, 1, 3)], 52, "two control messages with descriptors"))
            cases.append((st.copy(), [(0, 1, 1, 15), (80, 1, 1, 1)], 100, "two control messages with descriptors"))
            cases.append((st.copy(), [(0, 1, 2, 3), (32, 1, 1, 2)], 56, "credentials and a control message with descriptors"))
        for s, recs, total, note in cases:
            s.setg(ctl.oid, "track", 1)
            for off, level, ty, k in recs:
                rec(s, ctl.off + off, level, ty, k)
            s.setcell(msg.oid, msg.off + 40, 8, total)
            s.mon["~recs"] = tuple((ctl.oid, ctl.off + off) for off, _, _, _ in recs)
            s.mon["~rx"] = tuple((ctl.oid, ctl.off + off + 16, k) for off, level, ty, k in recs if (level, ty) == (1, 1))
            s.note("recvmsg: " + note)
            eng.count("control_messages")
            out.append((s, s.norm(L)))
        return out

    def f___cmsg_nxthdr(self, eng, st, ins, a):
        recs = st.mon.get("~recs", ())
        if a[1].__class__ is not Ptr:
            eng.check_ptr(st, a[1], 1, "CMSG_NXTHDR")
            return []
        for i, (oid, off) in enumerate(recs):
            if oid == a[1].oid and off == a[1].off:
                if i + 1 < len(recs):
                    return [(st, Ptr(oid, recs[i + 1][1]))]
                return [(st, 0)]
        eng.report("S16.cmsg", st, "the control messages are walked from something that is not one of them")
        return []

    def f_close(self, eng, st, ins, a):
        v = st.norm(a[0])
        if v is UNDEF:
            eng.report("mem.uninit", st, "close of an uninitialised descriptor")
            return []
        eng.count("closes")
        if v.__class__ is Lin and v.c == 0 and len(v.t) == 1:
            for f in st.atoms[v.t[0][0]].facts:
                if f[0] == "src" and f[3] == 4:
                    self.note_closed(eng, st, f[1], f[2])
                    return [(st, 0)]
        eng.report("S16.closeother", st, "something is closed that was neither received nor queued")
        return [(st, 0)]


    def note_closed(self, eng, st, src, off):
        """remember a closed descriptor by the place it came from: runs (place, first offset, number), ring offsets relative to
        the oldest byte"""
        if src.__class__ is tuple:
            name = src[1][:-5]
            off = modring(st.norm(sub(off, eng.start[name][1]))) if name in eng.start else off
            off = off % RING if off.__class__ is int else off
        c = st.mon.get("~closed", ())
        if off.__class__ is int:
            for i, (s, o, n) in enumerate(c):
                if s == src and o.__class__ is int and off in (o + 4 * n, o - 4):
                    st.mon["~closed"] = c[:i] + ((s, min(o, off), n + 1),) + c[i + 1:]
                    return
        st.mon["~closed"] = c + ((src, off, 1),)


# ------------------------------------------------------------------------------------------------ entry points
class Case:
    def __init__(self, prog, name, opts):
        self.prog, self.name, self.opts = prog, name, opts

    def make(self):
        global RING
        prog = self.prog
        RING = prog.field("connection_buffer", "data")[1]
        if RING & (RING - 1) or not 64 <= RING <= 65536:
            raise AnalysisError(f"unexpected buffer size {RING}")
        fs = [f for f in prog.find(self.name)]
        if len(fs) != 1:
            raise AnalysisError(f"interface function {self.name} not found")
        m = ConnModels(prog, self.opts)
        eng = ConnEngine(prog, m, "conn:" + self.name, dict(self.opts))
        eng.conn_oid = -1
        st = eng.initial()
        size = prog.sizeof("connection")
        c = st.new("ext", "connection", size, "sym")
        eng.conn_oid = c
        eng.rings, eng.fields, eng.start = {}, [], {}
        bs = prog.sizeof("connection_buffer")
        for r in RINGS:
            o = prog.field("connection", r)[0]
            ho, to = prog.field("connection_buffer", "head"), prog.field("connection_buffer", "tail")
            d = prog.field("connection_buffer", "data")
            if d[1] != RING:
                raise AnalysisError("the buffers differ in size")
            eng.rings[r] = (o + ho[0], o + to[0], o + d[0])
            eng.fields += [(o + ho[0], o + ho[0] + 4, r + ".head"), (o + to[0], o + to[0] + 4, r + ".tail"),
                           (o + d[0], o + d[0] + d[1], r + ".data")]
            if r.startswith("fds"):
                q, x, s = st.fresh(0, (1 << 32) // RING - 1), st.fresh(0, RING // 4 - 1), st.fresh(0, RING // 4)
                t = add(scale(q, RING), scale(x, 4))
                s = scale(s, 4)
            else:
                q, x, s = st.fresh(0, (1 << 32) // RING - 1), st.fresh(0, RING - 1), st.fresh(0, RING)
                t = add(scale(q, RING), x)
            st.setcell(c, o + to[0], 4, t)
            st.setcell(c, o + ho[0], 4, add(t, s))
            eng.start[r] = (add(t, s), t, s)
        fo, fn = prog.field("connection", "fd")[:2]
        wo, wn = prog.field("connection", "want_flush")[:2]
        eng.fields += [(fo, fo + fn, "fd"), (wo, wo + wn, "want_flush")]
        eng.wf = wo
        eng.fdv = st.fresh(0, (1 << 31) - 1)
        st.setcell(c, fo, fn, eng.fdv)
        eng.exit_at = (f"{eng.short(fs[0].file)}:{fs[0].line}", fs[0].src)
        return eng, m, st, fs[0].name

    def starts(self, eng, st):
        """want_flush is set whenever output is queued"""
        v = self.opts.get("variant")
        if v == "nofds":
            # any output level and position, no descriptors queued
            st.assume_eq0(eng.start["fds_out"][2])
        elif v == "fds":
            # any number and position of queued descriptors, one short message that wraps around or not
            st.assume_ge0(add(eng.start["fds_out"][2], -4))
            h, t, s = eng.start["out"]
            st.assume_eq0(add(s, 4 - RING))
            x = [a for a, k in t.t if k == 1]
            st.assume_eq0(add(atom(x[0]), -8))
            st.setcell(eng.conn_oid, eng.wf, 1, 1)
            return [st]
        s = st.copy()
        s.setcell(eng.conn_oid, eng.wf, 1, 1)
        st.assume_eq0(eng.start["out"][2])
        st.setcell(eng.conn_oid, eng.wf, 1, 0)
        return [s, st]


    RELEVANT = {"connection_put": ("out", "fds_out"), "connection_flush": ("out", "fds_out"), "connection_get": ("in",),
                "connection_get_fd": ("fds_in",), "connection_put_fd": ("fds_out",), "connection_close_fds": ("fds_in", "fds_out"),
                "connection_read": ("in", "fds_in"), "connection_pending": ("in",), "connection_restore": ("in",)}

    def select(self, eng, st):
        """the states with selected cursor positions (and descriptor counts) of the buffers the function works on"""
        out = [st]
        for r in self.RELEVANT[self.name]:
            h, t, s = eng.start[r]
            fd = r.startswith("fds")
            x = [a for a, k in t.t if k != RING]
            new = []
            for st in out:
                n = st.norm(s)
                if st.norm(atom(x[0])).__class__ is int:
                    new.append(st)
                    continue
                if n.__class__ is int and n == 0 and fd and self.name != "connection_put_fd" and self.name != "connection_read":
                    new.append(st)
                    continue
                for p in (0, 1, RING // 4 - 2) if fd else (0, 2, RING - 1):
                    for k in ((0, 1, 2, RING // 4 - 1, RING // 4) if fd and self.name != "connection_close_fds" else (None,)):
                        c = st.copy()
                        if c.assume_eq0(add(c.norm(atom(x[0])), -p)) and (k is None or c.assume_eq0(add(c.norm(s), -4 * k))):
                            new.append(c)
            out = new
        return out


def writes(eng, st, ring):
    base = eng.rings[ring][2]
    out = []
    for e in st.mon.get("~log", ()):
        if e[0] == eng.conn_oid and st.ge0(add(e[1], -base)) and st.ge0(sub(base + RING - 1, e[1])):
            out.append(e)
    return out


def unchanged(eng, m, st, rings, why):
    for r in rings:
        h, t, s, do = m.ring(eng, st, r)
        h0, t0, s0 = eng.start[r]
        if not modeq(st, sub(h, h0), U32) or not modeq(st, sub(t, t0), U32):
            eng.report("S15.changed", st, f"the buffer '{r}' changes although {why}", key=("ch", r, why))
        # bytes of the valid part must not be overwritten
        if writes(eng, st, r):
            eng.report("S15.changed", st, f"bytes of the buffer '{r}' are overwritten although {why}", key=("wr", r, why))


def invariant(eng, m, st):
    for r in RINGS:
        h, t, s, do = m.ring(eng, st, r)
        if not (st.ge0(s) and st.ge0(sub(RING, s))):
            eng.report("S15.level", st, f"the fill level of '{r}' leaves the range its buffer allows")
    wf = st.norm(st.getcell(eng.conn_oid, eng.wf, 1))
    s = m.ring(eng, st, "out")[2]
    if st.eq0(s) is not True and not (wf.__class__ is int and wf & 1):
        eng.report("S34.wantflush", st, "output is queued, but the connection is not marked as having output to flush")


def flush_effects(eng, m, st, ok):
    """effects of the sends that happened during the call"""
    h, t, s, do = m.ring(eng, st, "out")
    if "~tail" in st.mon:
        m.sync(eng, st)
    if st.mon.get("~fdsent"):
        pass
    else:
        m.closed_none(eng, st, "nothing was sent")
        unchanged(eng, m, st, ["fds_out"], "nothing was sent")
    if "~intr" in st.mon:
        eng.report("S17.eintr", st, "an interrupted call is treated as a failure")


def err(eng, m, st):
    return st.norm(m.errno(eng, st))


def check_put(eng, m, st, v, count, data):
    invariant(eng, m, st)
    v, count = st.norm(v), st.norm(count)
    h0, t0, s0 = eng.start["out"]
    h, t, s, do = m.ring(eng, st, "out")
    flush_effects(eng, m, st, v == 0)
    unchanged(eng, m, st, ["in", "fds_in"], "output is queued")
    if v == 0:
        eng.count("accepted")
        if not modeq(st, sub(h, add(h0, count)), U32):
            eng.report("S15.put", st, "the number of bytes added to the buffer is not the number given")
        if "~tail" not in st.mon and not modeq(st, sub(t, t0), U32):
            eng.report("S15.put", st, "queueing output removes queued bytes")
        segs = [(e[3], e[2], e[1], e[4]) for e in writes(eng, st, "out")]
        segs = [(so, "ring" if src == data else "other", d, n) for so, src, d, n in segs]
        m.covers(eng, st, segs, count, "ring", lambda i: add(h0, i), do, "S15.put",
                 "the bytes given are not stored at consecutive positions after the queued ones")
    else:
        eng.count("refused")
        if st.norm(v) != -1:
            eng.report("S15.ret", st, "a result other than 0 and -1 is returned")
        if not modeq(st, sub(h, h0), U32) or writes(eng, st, "out"):
            eng.report("S15.changed", st, "the output buffer changes although the data is refused")
        if "~io" not in st.mon:
            # refused without trying to make room: it must not fit even into an empty buffer
            s2 = st.copy()
            if s2.assume_ge0(s2.norm(sub(RING, add(count, s0)))):
                eng.report("S15.refuse", s2, "data that fits is refused")


def check_get(eng, m, st, v, count, dst):
    invariant(eng, m, st)
    v, count = st.norm(v), st.norm(count)
    h0, t0, s0 = eng.start["in"]
    h, t, s, do = m.ring(eng, st, "in")
    unchanged(eng, m, st, ["out", "fds_in", "fds_out"], "data is taken from the input buffer")
    segs = [(e[1], e[2], e[3], e[4]) for e in st.mon.get("~log", ()) if e[0] == dst]
    if v.__class__ is int and v == -1 and st.eq0(add(count, 1)) is not True:
        if not modeq(st, sub(t, t0), U32) or not modeq(st, sub(h, h0), U32) or segs:
            eng.report("S15.changed", st, "input is consumed or copied although the call fails")
        if st.eq0(add(err(eng, m, st), -EAGAIN)) is not True:
            eng.report("S15.errno", st, "too little data is not reported with EAGAIN")
        s2 = st.copy()
        if s2.assume_ge0(s2.norm(sub(s0, count))):
            eng.report("S15.refuse", s2, "a request for data that is present fails")
        eng.count("refused")
        return
    eng.count("accepted")
    if not modeq(st, sub(v, count), U32):
        eng.report("S15.ret", st, "the number of bytes delivered is not returned")
    if not modeq(st, sub(t, add(t0, count)), U32) or not modeq(st, sub(h, h0), U32):
        eng.report("S15.get", st, "the number of bytes removed is not the number delivered")
    m.covers(eng, st, segs, count, eng.conn_oid, lambda i: add(t0, i), do, "S15.get",
             "the bytes delivered are not the oldest ones in order")


def check_get_fd(eng, m, st, v, fdp):
    invariant(eng, m, st)
    v = st.norm(v)
    h0, t0, s0 = eng.start["fds_in"]
    h, t, s, do = m.ring(eng, st, "fds_in")
    unchanged(eng, m, st, ["in", "out", "fds_out"], "a descriptor is taken")
    m.closed_none(eng, st, "a descriptor is taken")
    segs = [(e[1], e[2], e[3], e[4]) for e in st.mon.get("~log", ()) if e[0] == fdp]
    c = st.mem[fdp].cells.get(0)
    if c is not None and c[0] == 4 and c[1].__class__ is Lin and not segs:
        x = st.norm(c[1])
        if x.__class__ is Lin and len(x.t) == 1:
            for f in st.atoms[x.t[0][0]].facts:
                if f[0] == "src" and f[1] == ("ring", "fds_in.data"):
                    segs = [(0, eng.conn_oid, add(f[2], do), 4)]
    if v == 0:
        if not modeq(st, sub(t, add(t0, 4)), U32):
            eng.report("S16.get", st, "taking a descriptor does not remove exactly one")
        m.covers(eng, st, segs, 4, eng.conn_oid, lambda i: add(t0, i), do, "S16.get", "the descriptor taken is not the oldest one")
        eng.count("accepted")
    else:
        if not modeq(st, sub(t, t0), U32) or segs:
            eng.report("S15.changed", st, "a descriptor is removed although the call fails")
        s2 = st.copy()
        if s2.assume_ge0(s2.norm(add(s0, -4))):
            eng.report("S16.refuse", s2, "a received descriptor is not delivered")
        eng.count("refused")


def check_put_fd(eng, m, st, v, fd):
    invariant(eng, m, st)
    v = st.norm(v)
    h0, t0, s0 = eng.start["fds_out"]
    h, t, s, do = m.ring(eng, st, "fds_out")
    unchanged(eng, m, st, ["in", "out", "fds_in"], "a descriptor is queued")
    m.closed_none(eng, st, "a descriptor is queued")
    w = writes(eng, st, "fds_out")
    if v == 0:
        if not modeq(st, sub(h, add(h0, 4)), U32) or not modeq(st, sub(t, t0), U32):
            eng.report("S16.put", st, "queueing a descriptor does not add exactly one")
        ok = len(w) == 1 and w[0][2].__class__ is tuple and w[0][2][1] is not None and st.eq0(sub(w[0][2][1], fd)) is True \
            and w[0][4] == 4 and w[0][3] == 0 and modeq(st, sub(sub(w[0][1], do), h0))
        if not ok:
            eng.report("S16.put", st, "the descriptor is not stored after the queued ones")
        eng.count("accepted")
    else:
        if w or not modeq(st, sub(h, h0), U32) or not modeq(st, sub(t, t0), U32):
            eng.report("S15.changed", st, "the descriptor queue changes although the call fails")
        s2 = st.copy()
        if s2.assume_ge0(s2.norm(add(scale(s0, -1), RING - 4))):
            eng.report("S16.refuse", s2, "a descriptor is refused although there is room")
        eng.count("refused")


def check_close_fds(eng, m, st, v):
    invariant(eng, m, st)
    unchanged(eng, m, st, ["in", "out"], "descriptors are closed")
    for r in ("fds_in", "fds_out"):
        if st.eq0(m.ring(eng, st, r)[2]) is not True:
            eng.report("S16.left", st, f"descriptors stay queued ('{r}') after all were closed")
        m.closed_all(eng, st, r, "queued")


def check_pending(eng, m, st, v):
    unchanged(eng, m, st, RINGS, "the fill level is queried")
    if not st.eq0(sub(st.norm(v), st.norm(eng.start["in"][2]))):
        eng.report("S15.pending", st, "the reported fill level is not the number of unread bytes")


def check_restore(eng, m, st, v, n):
    h0, t0, s0 = eng.start["in"]
    h, t, s, do = m.ring(eng, st, "in")
    unchanged(eng, m, st, ["out", "fds_in", "fds_out"], "input is put back")
    if not modeq(st, sub(t, sub(t0, st.norm(n))), U32) or not modeq(st, sub(h, h0), U32) or writes(eng, st, "in"):
        eng.report("S15.restore", st, "putting input back does not restore exactly the bytes taken")


def check_flush(eng, m, st, v):
    invariant(eng, m, st)
    v = st.norm(v)
    h0, t0, s0 = eng.start["out"]
    h, t, s, do = m.ring(eng, st, "out")
    unchanged(eng, m, st, ["in", "fds_in"], "output is sent")
    if writes(eng, st, "out"):
        eng.report("S15.changed", st, "bytes of the output buffer are overwritten while sending")
    flush_effects(eng, m, st, v != -1)
    if not modeq(st, sub(h, h0), U32):
        eng.report("S15.changed", st, "sending changes the end of the output buffer")
    io = st.mon.get("~io")
    if io is None:
        if not modeq(st, sub(t, t0), U32):
            eng.report("S15.consume", st, "output is removed although nothing was sent")
        if st.eq0(s0) is not True:
            eng.report("S34.nosend", st, "queued output is not sent when the connection is flushed")
        if not (v.__class__ is int and v == 0):
            eng.report("S15.ret", st, "flushing nothing does not return 0")
        return
    if v.__class__ is int and v == -1:
        if io != "fail":
            eng.report("S15.ret", st, "a flush fails although sending did not fail")
        if st.eq0(s) is True:
            pass
        eng.count("refused")
    else:
        if io == "fail":
            eng.report("S15.ret", st, "a flush succeeds although sending failed")
        if st.eq0(s) is not True:
            eng.report("S34.partial", st, "a flush reports success although output is left")
        if not st.eq0(sub(v, st.norm(s0))):
            eng.report("S15.ret", st, "the flush does not return the number of bytes sent")
        eng.count("accepted")


def check_read(eng, m, st, v):
    v = st.norm(v)
    h0, t0, s0 = eng.start["in"]
    h, t, s, do = m.ring(eng, st, "in")
    unchanged(eng, m, st, ["out", "fds_out"], "input is received")
    if writes(eng, st, "in"):
        eng.report("S15.changed", st, "bytes of the input buffer are overwritten by something else than the receive call")
    if "~intr" in st.mon:
        eng.report("S17.eintr", st, "an interrupted call is treated as a failure")
    io = st.mon.get("~io")
    # descriptors
    rx = st.mon.get("~rx", ())
    fh0, ft0, fs0 = eng.start["fds_in"]
    fh, ft, fs, fdo = m.ring(eng, st, "fds_in")
    fs = st.norm(fs)
    if not modeq(st, sub(ft, ft0), U32):
        eng.report("S16.get", st, "receiving removes descriptors from the queue")
    if not (st.ge0(fs) and st.ge0(sub(RING, fs))):
        eng.report("S15.level", st, "the fill level of 'fds_in' leaves the range its buffer allows")
    w = writes(eng, st, "fds_in")
    closed = list(expand(st.mon.get("~closed", ())))
    pos = 0
    over = False
    for oid, off, k in rx:
        k = st.norm(k)
        cl = set()
        for o2, f2 in closed:
            if o2 == oid and f2.__class__ is int and f2 >= off and (k.__class__ is not int or f2 < off + 4 * k):
                i = (f2 - off) // 4
                if i in cl:
                    eng.report("S16.twice", st, "a received descriptor is closed twice")
                cl.add(i)
        stored = [e for e in w if e[2] == oid and st.ge0(sub(e[3], off)) and st.ge0(sub(add(off, add(scale(k, 4), -4)), e[3]))]
        n4 = 0
        for e in stored:
            n4 = add(n4, e[4])
        if cl:
            over = True
            if stored:
                eng.report("S16.both", st, "received descriptors are queued as well as closed")
            if cl != set(range(len(cl))) or st.eq0(add(k, -len(cl))) is not True:
                eng.report("S16.lost", st, "received descriptors are neither queued nor closed")
        else:
            if st.eq0(sub(n4, scale(k, 4))) is not True:
                eng.report("S16.lost", st, "received descriptors are neither queued nor closed")
            elif not m.covers(eng, st, [(sub(e[3], off), "ring", e[1], e[4]) for e in stored], scale(k, 4), "ring",
                              lambda i: add(fh0, add(pos, i)), fdo, "S16.order", "received descriptors are not queued in order"):
                pass
            pos = st.norm(add(pos, scale(k, 4)))
    if not modeq(st, sub(fh, add(fh0, pos)), U32):
        eng.report("S16.count", st, "the descriptor queue does not grow by the number of descriptors stored")
    if any(o not in [x[0] for x in rx] for o, _ in closed):
        eng.report("S16.closeother", st, "descriptors that were received earlier are closed by a read")
    if rx:
        eng.count("descriptor_sets")
    if io == "ok":
        L = st.norm(st.mon["~len"])
        if v.__class__ is int and v == -1:
            if not over:
                eng.report("S15.lost", st, "received bytes are dropped without reason")
            return
        if over:
            eng.report("S16.overflow", st, "a descriptor overflow is not reported")
        if not modeq(st, sub(h, add(h0, L)), U32) or not modeq(st, sub(t, t0), U32):
            eng.report("S15.read", st, "the number of bytes added is not the number received")
        if not (st.ge0(s) and st.ge0(sub(RING, s))):
            eng.report("S15.level", st, "the fill level of 'in' leaves the range its buffer allows")
        if st.ge0(add(v, -1)) is not True:
            eng.report("S15.ret", st, "a successful read does not return a positive count")
        eng.count("accepted")
        return
    if not modeq(st, sub(h, h0), U32) or not modeq(st, sub(t, t0), U32):
        eng.report("S15.changed", st, "the input buffer changes although nothing was received")
    if io == "eof":
        if not (v.__class__ is int and v == 0):
            eng.report("S35.eof", st, "the end of the stream is not reported when unread input is buffered")
        eng.count("eofs")
        return
    if not (v.__class__ is int and v == -1):
        eng.report("S15.ret", st, "a read that received nothing does not fail")
    if io is None:
        if st.eq0(add(s0, -RING)) is not True:
            eng.report("S15.refuse", st, "a read is refused although there is room")


def analyse(prog, opts, only=None):
    """[engine] one per entry point"""
    out = []
    U = (1 << 64) - 1

    def run(name, prep, check):
        if only and name not in only:
            return
        eng = once(name, prep, check, opts)
        if "time budget" in eng.truncated and not opts.get("reduced"):
            # every state does not fit the time: a selection of positions and levels instead
            e2 = once(name, prep, check, dict(opts, reduced=True, time=2 * opts["time"]))
            e2.reports = {**eng.reports, **e2.reports}
            e2.truncated.add("selected positions and levels: " + name)
            eng = e2
        out.append(eng)

    def once(name, prep, check, opts):
        case = Case(prog, name, opts)
        eng, m, st, fn = case.make()
        starts = []
        eng.reduced = opts.get("reduced")
        if opts.get("time"):
            eng.deadline = time.time() + opts["time"]
        first = case.starts(eng, st)
        if eng.reduced:
            first = [y for x in first for y in case.select(eng, x)]
        for s in first:
            args, extra = prep(eng, s)
            for s2 in extra.pop("states", [s]):
                eng.call(s2, fn, [Ptr(eng.conn_oid, 0)] + args)
                starts.append(s2)
            ck = extra
        eng.run(starts, lambda x, v: check(eng, m, x, v, *ck.get("a", ())))
        if not eng.stats["paths"] and not eng.reports and (eng.reduced or "time budget" not in eng.truncated):
            raise AnalysisError(f"{name}: no path was analysed")
        return eng

    def ext(eng, st, size, tag):
        key = "_ext_" + tag
        if not hasattr(eng, key):
            o = st.new("ext", tag, size, "sym")
            setattr(eng, key, (o, st.mem[o]))
            st.mem[o].ghost["track"] = 1
        o, ob = getattr(eng, key)
        st.mem[o] = ob
        return o

    def p_data(eng, st):
        if not hasattr(eng, "_n"):
            eng._n = st.fresh(0, U)
            eng._ni = st.atoms[eng._n.t[0][0]]
        st.atoms[eng._n.t[0][0]] = eng._ni
        o = ext(eng, st, eng._n, "data")
        r = {"a": (eng._n, o)}
        if eng.reduced:
            r["states"] = []
            for i in (0, 1, 2, 3, RING - 1, RING, None):
                s = st.copy()
                if s.assume_eq0(add(eng._n, -i)) if i is not None else s.assume_ge0(add(eng._n, -RING - 1)):
                    r["states"].append(s)
        return [Ptr(o, 0), eng._n], r

    def p_fd(eng, st):
        if not hasattr(eng, "_n"):
            eng._n = st.fresh(0, (1 << 31) - 1)
            eng._ni = st.atoms[eng._n.t[0][0]]
        st.atoms[eng._n.t[0][0]] = eng._ni
        return [eng._n], {"a": (eng._n,)}

    def p_fdp(eng, st):
        o = ext(eng, st, 4, "descriptor")
        return [Ptr(o, 0)], {"a": (o,)}

    def p_restore(eng, st):
        if not hasattr(eng, "_n"):
            eng._n = st.fresh(0, RING)
            eng._ni = st.atoms[eng._n.t[0][0]]
        st.atoms[eng._n.t[0][0]] = eng._ni
        st.assume_ge0(sub(sub(RING, eng.start["in"][2]), eng._n))
        return [eng._n], {"a": (eng._n,)}

    def none(eng, st):
        return [], {}

    def p_close(eng, st):
        out = []
        for i, o in ((0, 0), (4, 0), (0, 4), (12, 8), (RING - 4, 4), (RING, 0), (0, RING), (4, RING), (RING, 4)):
            s = st.copy()
            if s.assume_eq0(add(s.norm(eng.start["fds_in"][2]), -i)) and s.assume_eq0(add(s.norm(eng.start["fds_out"][2]), -o)):
                out.append(s)
        return [], {"states": out}
    run("connection_put", p_data, check_put)
    run("connection_get", p_data, check_get)
    run("connection_get_fd", p_fdp, check_get_fd)
    run("connection_put_fd", p_fd, check_put_fd)
    run("connection_close_fds", p_close, check_close_fds)
    run("connection_pending", none, check_pending)
    run("connection_restore", p_restore, check_restore)
    run("connection_flush", none, check_flush)
    run("connection_read", none, check_read)
    return out


API = ("connection_put", "connection_get", "connection_get_fd", "connection_put_fd", "connection_close_fds",
       "connection_pending", "connection_restore", "connection_flush", "connection_read")
TASKS = [("connection_put", dict(variant="fds", partials=1)), ("connection_flush", dict(variant="fds", partials=1)),
         ("connection_read", {}), ("connection_close_fds", {}), ("connection_put", dict(variant="nofds", partials=2)),
         ("connection_flush", dict(variant="nofds", partials=3)), ("connection_get", {}), ("connection_get_fd", {}),
         ("connection_put_fd", {}), ("connection_pending", {}), ("connection_restore", {})]
DEEP = [("connection_put", dict(partials=2)), ("connection_flush", dict(partials=2)),
        ("connection_flush", dict(variant="nofds", partials=6)), ("connection_put", dict(variant="nofds", partials=5))]
IO = ("sendmsg", "recvmsg", "send", "recv", "sendto", "recvfrom", "sendmmsg", "recvmmsg", "readv", "writev")


def who_calls(prog, fns):
    """socket I/O call sites outside the analysed functions: (function, instruction, callee, flags argument)"""
    other, n = [], 0
    for f in prog.funcs.values():
        for b in f.blocks.values():
            for ins in b.ins:
                if ins.op == "call" and isinstance(ins.a[0], tuple) and ins.a[0][0] == "g" and ins.a[0][1] in IO:
                    n += 1
                    if f.name not in fns:
                        other.append((f, ins, ins.a[0][1]))
    return other, n
