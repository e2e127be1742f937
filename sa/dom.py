"""Value and numeric domain: linear expressions over abstract symbols ("atoms") with intervals,
disequalities and a set of linear inequalities; pointers are (object, linear offset)."""
from math import gcd
from _collections import _tuplegetter

INF = 1 << 200


class Lin:
    __slots__ = ("c", "t", "_h")

    def __init__(self, c, t):
        self.c = c
        self.t = t
        self._h = hash((c, t))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (o.__class__ is Lin and self._h == o._h and self.c == o.c and self.t == o.t)

    def __ne__(self, o):
        return not self == o

    def __repr__(self):
        s = "+".join(f"{k}*a{a}" if k != 1 else f"a{a}" for a, k in self.t)
        return f"({s}{self.c:+d})" if self.c else f"({s})"

    def __reduce__(self):
        return (Lin, (self.c, self.t))


def mk(c, d):
    t = tuple(sorted((a, k) for a, k in d.items() if k))
    return Lin(c, t) if t else c


def atom(a):
    return Lin(0, ((a, 1),))


def add(a, b):
    if a.__class__ is int:
        if b.__class__ is int:
            return a + b
        return Lin(a + b.c, b.t) if a else b
    if b.__class__ is int:
        return Lin(a.c + b, a.t) if b else a
    d = dict(a.t)
    for x, k in b.t:
        d[x] = d.get(x, 0) + k
    return mk(a.c + b.c, d)


def scale(a, k):
    if a.__class__ is int:
        return a * k
    if k == 0:
        return 0
    if k == 1:
        return a
    return Lin(a.c * k, tuple((x, q * k) for x, q in a.t))


def sub(a, b):
    return add(a, scale(b, -1))


class Ptr(tuple):
    __slots__ = ()

    def __new__(cls, oid, off=0):
        return tuple.__new__(cls, (oid, off))

    oid = _tuplegetter(0, "object")
    off = _tuplegetter(1, "offset")

    def __repr__(self):
        return f"&o{self[0]}+{self[1]}"

    def __reduce__(self):
        return (Ptr, (self[0], self[1]))


class Fn:
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name

    def __eq__(self, o):
        return o.__class__ is Fn and o.name == self.name

    def __hash__(self):
        return hash(self.name)

    def __repr__(self):
        return f"fn:{self.name}"


class Cond:
    """deferred comparison (i1)"""
    __slots__ = ("pred", "a", "b", "w")

    def __init__(self, pred, a, b, w):
        self.pred, self.a, self.b, self.w = pred, a, b, w

    def __repr__(self):
        return f"[{self.a} {self.pred} {self.b}]"


NEG = {"eq": "ne", "ne": "eq", "slt": "sge", "sge": "slt", "sgt": "sle", "sle": "sgt", "ult": "uge", "uge": "ult",
       "ugt": "ule", "ule": "ugt"}


class _Undef:
    def __repr__(self):
        return "undef"

    def __reduce__(self):
        return "UNDEF"


UNDEF = _Undef()


class FPv:
    def __repr__(self):
        return "fp"

    def __reduce__(self):
        return "FPV"


FPV = FPv()


class AInfo:
    __slots__ = ("lo", "hi", "ne", "kind", "facts")

    def __init__(self, lo, hi, ne=frozenset(), kind=None, facts=frozenset()):
        self.lo, self.hi, self.ne, self.kind, self.facts = lo, hi, ne, kind, facts

    def key(self):
        return (self.lo, self.hi, tuple(sorted(self.ne)), self.kind)

    def with_(self, **k):
        n = AInfo(self.lo, self.hi, self.ne, self.kind, self.facts)
        for x, v in k.items():
            setattr(n, x, v)
        return n

    def __repr__(self):
        return f"<{self.kind or ''}[{self.lo},{self.hi}]{'!' + str(set(self.ne)) if self.ne else ''}{set(self.facts) or ''}>"


class Num:
    """mixin with the numeric part of the state: self.atoms, self.cons, self.sub"""

    def fresh(self, lo, hi, kind=None, ne=frozenset(), facts=frozenset()):
        a = self.eng.newatom()
        self.atoms[a] = AInfo(lo, hi, frozenset(ne), kind, frozenset(facts))
        return atom(a)

    def norm(self, v):
        if v.__class__ is not Lin or not self.sub:
            return v
        s = self.sub
        for a, k in v.t:
            if a in s:
                break
        else:
            return v
        r = v.c
        for a, k in v.t:
            x = s.get(a)
            if x is None:
                r = add(r, Lin(0, ((a, k),)))
            else:
                r = add(r, scale(self.norm(x), k))
        return r

    def irng(self, v):
        """plain interval"""
        if v.__class__ is int:
            return v, v
        lo = hi = v.c
        at = self.atoms
        for a, k in v.t:
            i = at[a]
            if k > 0:
                lo += k * i.lo
                hi += k * i.hi
            else:
                lo += k * i.hi
                hi += k * i.lo
        return lo, hi

    def _lb(self, L, depth):
        if L.__class__ is int:
            return L
        best = self.irng(L)[0]
        if depth == 0 or not self.cons:
            return best
        coef = dict(L.t)
        for S in self.cons:
            for x, sx in S.t:
                lx = coef.get(x)
                if lx is None or (lx > 0) != (sx > 0):
                    continue
                g = gcd(abs(lx), abs(sx))
                m, k = abs(sx) // g, abs(lx) // g
                R = add(scale(L, m), scale(S, -k))
                b = self._lb(R, depth - 1)
                b = -((-b) // m)
                if b > best:
                    best = b
        return best

    def lb(self, L):
        return self._lb(L, 2)

    def rng(self, v):
        v = self.norm(v)
        if v.__class__ is int:
            return v, v
        lo, hi = self.irng(v)
        if len(self.cons):
            ats = {a for a, _ in v.t}
            if any(x in ats for S in self.cons for x, _ in S.t):
                lo = max(lo, self._lb(v, 2))
                hi = min(hi, -self._lb(scale(v, -1), 2))
        return lo, hi

    def ge0(self, L):
        """True/False/None"""
        L = self.norm(L)
        if L.__class__ is int:
            return L >= 0
        lo, hi = self.irng(L)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if self.cons:
            if self._lb(L, 2) >= 0:
                return True
            if -self._lb(scale(L, -1), 2) < 0:
                return False
        return None

    def eq0(self, L):
        L = self.norm(L)
        if L.__class__ is int:
            return L == 0
        if len(L.t) == 1:
            a, k = L.t[0]
            if L.c % k:
                return False
            v = -L.c // k
            i = self.atoms[a]
            if v < i.lo or v > i.hi or v in i.ne:
                return False
        if self.ge0(L) is False or self.ge0(scale(L, -1)) is False:
            return False
        if self.ge0(L) and self.ge0(scale(L, -1)):
            return True
        return None

    def _setb(self, a, lo, hi):
        i = self.atoms[a]
        ne = i.ne
        nlo, nhi = max(i.lo, lo), min(i.hi, hi)
        if ne:
            while nlo in ne:
                nlo += 1
            while nhi in ne:
                nhi -= 1
        if nlo > nhi:
            return False
        if nlo != i.lo or nhi != i.hi:
            self.atoms[a] = AInfo(nlo, nhi, frozenset(x for x in ne if nlo < x < nhi), i.kind, i.facts)
            if nlo == nhi:
                self.sub = dict(self.sub)
                self.sub[a] = nlo
            return self._prop(a)
        return True

    def _prop(self, a):
        """propagate a's new bound through the constraints"""
        if not self.cons:
            return True
        work = [a]
        rounds = 0
        while work and rounds < 30:
            rounds += 1
            x = work.pop()
            for S in self.cons:
                if not any(y == x for y, _ in S.t):
                    continue
                hi_all = self.irng(S)[1]
                if hi_all < 0:
                    return False
                for y, k in S.t:
                    i = self.atoms[y]
                    # k*y + rest >= 0, rest <= hi_rest
                    hr = hi_all - (k * i.hi if k > 0 else k * i.lo)
                    if k > 0:
                        lo = -(hr // k)  # y >= ceil(-hr/k)
                        if lo > i.lo:
                            if lo > i.hi:
                                return False
                            self.atoms[y] = i.with_(lo=lo)
                            work.append(y)
                    else:
                        hi = hr // (-k)
                        if hi < i.hi:
                            if hi < i.lo:
                                return False
                            self.atoms[y] = i.with_(hi=hi)
                            work.append(y)
                    i = self.atoms[y]
                    if i.lo == i.hi and y not in self.sub:
                        self.sub = dict(self.sub)
                        self.sub[y] = i.lo
        return True

    def assume_ge0(self, L):
        L = self.norm(L)
        if L.__class__ is int:
            return L >= 0
        g = 0
        for _, k in L.t:
            g = gcd(g, abs(k))
        if g > 1:
            L = Lin(L.c // g, tuple((a, k // g) for a, k in L.t))
        lo, hi = self.irng(L)
        if lo >= 0:
            return True
        if hi < 0:
            return False
        if len(L.t) == 1:
            a, k = L.t[0]
            return self._setb(a, -L.c, INF) if k > 0 else self._setb(a, -INF, L.c)
        if self.cons and -self._lb(scale(L, -1), 2) < 0:
            return False
        if self.cons and self._lb(L, 1) >= 0:
            return True
        if L in self.cons:
            return True
        # drop constraints with same terms and weaker constant
        self.cons = tuple(S for S in self.cons if not (S.t == L.t and S.c >= L.c)) + (L,)
        for a, _ in L.t:
            if not self._prop(a):
                return False
        return True

    def assume_eq0(self, L):
        L = self.norm(L)
        if L.__class__ is int:
            return L == 0
        if self.eq0(L) is False:
            return False
        if len(L.t) == 1:
            a, k = L.t[0]
            v = -L.c // k
            return self._setb(a, v, v)
        if not self.assume_ge0(L) or not self.assume_ge0(scale(L, -1)):
            return False
        L = self.norm(L)
        if L.__class__ is int:
            return L == 0
        # substitute one unit-coefficient plain atom
        best = None
        for a, k in L.t:
            i = self.atoms[a]
            if k in (1, -1) and i.kind is None and not i.facts:
                best = (a, k)
        if best:
            a, k = best
            rest = Lin(L.c, tuple((x, q) for x, q in L.t if x != a)) if len(L.t) > 1 else L.c
            e = scale(rest, -k)  # a = -rest/k
            i = self.atoms[a]
            self.sub = dict(self.sub)
            self.sub[a] = e
            if not self.assume_ge0(add(e, -i.lo)) or not self.assume_ge0(sub(i.hi, e)):
                return False
            nc = []
            for S in self.cons:
                S2 = self.norm(S)
                if S2.__class__ is int:
                    if S2 < 0:
                        return False
                elif S2 not in nc:
                    nc.append(S2)
            self.cons = tuple(nc)
        return True

    def assume_ne0(self, L):
        """returns list of feasible refined states (self possibly copied)"""
        L = self.norm(L)
        if L.__class__ is int:
            return [self] if L != 0 else []
        if len(L.t) == 1:
            a, k = L.t[0]
            if L.c % k:
                return [self]
            v = -L.c // k
            i = self.atoms[a]
            if v < i.lo or v > i.hi or v in i.ne:
                return [self]
            if i.lo == i.hi:
                return []
            if v == i.lo:
                return [self] if self._setb(a, v + 1, INF) else []
            if v == i.hi:
                return [self] if self._setb(a, -INF, v - 1) else []
            if len(i.ne) < 24:
                self.atoms[a] = i.with_(ne=i.ne | {v})
            return [self]
        p, n = self.ge0(add(L, -1)), self.ge0(sub(-1, L))
        if p or n:
            return [self]
        out = []
        if p is not False:
            s = self.copy() if n is not False else self
            if s.assume_ge0(add(L, -1)):
                out.append(s)
        if n is not False:
            if self.assume_ge0(sub(-1, L)):
                out.append(self)
        return out
