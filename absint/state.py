"""Abstract states: memory, linear facts with exact rational entailment, known values, event traces."""
from math import gcd
from terms import *


def norm_c(c, d):
    g = 0
    for v in d.values():
        g = gcd(g, v)
    if g > 1:
        c = c // g  # integer tightening (>= 0 constraints): floor
        d = {k: v // g for k, v in d.items()}
    return c, d


_memo = {}
MAXC = 260


def feasible(cons):
    """cons: iterable of (c, items) meaning c + sum >= 0. Fourier-Motzkin; True if possibly feasible."""
    key = frozenset(cons)
    r = _memo.get(key)
    if r is not None:
        return r
    r = _fm(key)
    if len(_memo) > 200000:
        _memo.clear()
    _memo[key] = r
    return r


def _fm(cons):
    rows = {}
    for c, items in cons:
        if not items:
            if c < 0:
                return False
            continue
        c, d = norm_c(c, dict(items))
        k = frozenset(d.items())
        if k not in rows or rows[k] > c:
            rows[k] = c
    while rows:
        # quick contradiction / equalities
        eqk = None
        for k, c in rows.items():
            nk = frozenset((a, -v) for a, v in k)
            if nk in rows:
                s = rows[nk] + c
                if s < 0:
                    return False
                if s == 0 and eqk is None:
                    for a, v in k:
                        if v in (1, -1):
                            eqk = (k, c, a, v)
                            break
        if eqk:
            k, c, a, v = eqk
            # a = -(c + rest)/v
            rest = {x: y for x, y in k if x is not a}
            expr_c, expr = (-c * v, {x: -y * v for x, y in rest.items()})
            new = {}
            for k2, c2 in rows.items():
                d2 = dict(k2)
                co = d2.pop(a, 0)
                if co:
                    c2 = c2 + co * expr_c
                    for x, y in expr.items():
                        d2[x] = d2.get(x, 0) + co * y
                    d2 = {x: y for x, y in d2.items() if y}
                    if not d2:
                        if c2 < 0:
                            return False
                        continue
                    c2, d2 = norm_c(c2, d2)
                kk = frozenset(d2.items())
                if kk not in new or new[kk] > c2:
                    new[kk] = c2
            rows = new
            continue
        cnt = {}
        for k in rows:
            for a, v in k:
                p = cnt.setdefault(a, [0, 0])
                p[0 if v > 0 else 1] += 1
        a = min(cnt, key=lambda x: (cnt[x][0] * cnt[x][1] - cnt[x][0] - cnt[x][1], x.id))
        pos, negs, new = [], [], {}
        for k, c in rows.items():
            d = dict(k)
            v = d.get(a, 0)
            if v > 0:
                pos.append((v, c, d))
            elif v < 0:
                negs.append((-v, c, d))
            else:
                new[k] = c
        if len(pos) * len(negs) > MAXC * 4:
            return True
        for v, c, d in pos:
            for w, c2, d2 in negs:
                g = gcd(v, w)
                m1, m2 = w // g, v // g
                nd = {}
                for x, y in d.items():
                    nd[x] = y * m1
                for x, y in d2.items():
                    nd[x] = nd.get(x, 0) + y * m2
                nd = {x: y for x, y in nd.items() if y}
                nc = c * m1 + c2 * m2
                if not nd:
                    if nc < 0:
                        return False
                    continue
                nc, nd = norm_c(nc, nd)
                kk = frozenset(nd.items())
                if kk not in new or new[kk] > nc:
                    new[kk] = nc
        if len(new) > MAXC:
            return True
        rows = new
    return True


def con(l):
    """linear term -> constraint key for l >= 0"""
    if l.op == 'int':
        return (l.a[0], ())
    if l.op == 'lin':
        return (l.a[0], l.a[1])
    return (0, ((l, 1),))


# extra linear facts implied by an atom itself (filled in by the interpreter: atom -> list of linear terms >= 0)
atom_facts_hook = [None]
_af = {}


def atom_facts(a):
    r = _af.get(a)
    if r is None:
        r = []
        lo, hi = rng(a)
        if lo is not None:
            r.append(con(mklin(-lo, {a: 1})))
        if hi is not None:
            r.append(con(mklin(hi, {a: -1})))
        if a.op == 'bits' and len(a.a[0]) == 1:
            # a part of src: 0 <= (part << lo) <= src
            src, l, n = a.a[0][0]
            if isinstance(src, T) and src.op != 'lin':
                r.append(con(sub(src, mulc(a, 1 << l))))
                if atomwidth(src) == l + n:
                    r.append(con(add(sub(mulc(a, 1 << l), src), I((1 << l) - 1))))
        if a.op == 'bits' and len(a.a[0]) == 2 and not isinstance(a.a[0][0][0], T) and not a.a[0][0][0] and isinstance(a.a[0][1][0], T):
            # zeros below a part: the part, shifted
            part = frombits([a.a[0][1]])
            d = sub(a, mulc(part, 1 << a.a[0][0][2]))
            r += [con(d), con(neg(d))]
        _af[a] = r
    return r


class State:
    __slots__ = ('mem', 'facts', 'neq', 'eqc', 'kb', 'ev', 'dead', 'ghost')

    def __init__(self):
        self.mem = {}
        self.facts = frozenset()
        self.neq = frozenset()
        self.eqc = {}
        self.kb = {}
        self.ev = None      # linked list (prev, event)
        self.ghost = {}

    def copy(self):
        s = State.__new__(State)
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.neq = self.neq
        s.eqc = dict(self.eqc)
        s.kb = dict(self.kb)
        s.ev = self.ev
        s.ghost = dict(self.ghost)
        return s

    def sig(self):
        return (frozenset(self.mem.items()), self.ev, frozenset(self.ghost.items()))

    # ---- facts
    def relevant(self, l):
        seen = set(k for k in lin(l)[1])
        work = list(seen)
        out = set()
        idx = {}
        for f in self.facts:
            for a, _ in f[1]:
                idx.setdefault(a, []).append(f)
        while work:
            a = work.pop()
            for f in idx.get(a, ()):
                if f in out:
                    continue
                out.add(f)
                for b, _ in f[1]:
                    if b not in seen:
                        seen.add(b)
                        work.append(b)
            for f in atom_facts(a):
                if f in out:
                    continue
                out.add(f)
                for b, _ in f[1]:
                    if b not in seen:
                        seen.add(b)
                        work.append(b)
            if atom_facts_hook[0]:
                for x in atom_facts_hook[0](self, a):
                    f = con(x)
                    if f in out:
                        continue
                    out.add(f)
                    for b, _ in f[1]:
                        if b not in seen:
                            seen.add(b)
                            work.append(b)
            if a in self.kb:
                m, v = self.kb[a]
                w = atomwidth(a)
                if w:
                    full = (1 << w) - 1
                    out.add(con(mklin(-v, {a: 1})))
                    out.add(con(mklin(v | (full & ~m), {a: -1})))
        return out

    def entails(self, l):
        """l >= 0 ?"""
        l = self.norm(l)
        r = rng(l)
        if r[0] is not None and r[0] >= 0:
            return True
        if l.op == 'int':
            return l.a[0] >= 0
        c = con(l)
        if c in self.facts:
            return True
        rel = self.relevant(l)
        n = con(addc(neg(l), -1))
        return not feasible(rel | {n})

    def entails_eq(self, x, y):
        if x is y:
            return True
        d = self.norm(sub(x, y))
        if d.op == 'int':
            return d.a[0] == 0
        if d.op != 'lin' and d.op != 'int' and not (d.lo is not None):
            pass
        return self.entails(d) and self.entails(neg(d))

    def consistent_with(self, l):
        """could l >= 0 hold?"""
        l = self.norm(l)
        r = rng(l)
        if r[1] is not None and r[1] < 0:
            return False
        if r[0] is not None and r[0] >= 0:
            return True
        return feasible(self.relevant(l) | {con(l)})

    def add_ge0(self, l):
        """assume l >= 0; False if contradictory"""
        l = self.norm(l)
        if l.op == 'int':
            return l.a[0] >= 0
        if not self.consistent_with(l):
            return False
        r = rng(l)
        if not (r[0] is not None and r[0] >= 0):
            c, d = lin(l)
            c, d = norm_c(c, d)
            self.facts = self.facts | {con(mklin(c, d))}
        # sharpen disequalities
        for x in self.neq:
            if not self.entails(x) and not self.entails(neg(x)):
                continue
            if self.entails(x) and not self.entails(addc(x, -1)):
                if not self.add_ge0_raw(addc(x, -1)):
                    return False
            elif self.entails(neg(x)) and not self.entails(addc(neg(x), -1)):
                if not self.add_ge0_raw(addc(neg(x), -1)):
                    return False
        return True

    def add_ge0_raw(self, l):
        if not self.consistent_with(l):
            return False
        self.facts = self.facts | {con(l)}
        return True

    def add_eq0(self, l):
        l = self.norm(l)
        if l.op == 'int':
            return l.a[0] == 0
        c, d = lin(l)
        if len(d) == 1:
            (k, v), = d.items()
            if c % v:
                return False
            return self.set_const(k, -c // v)
        if not self.add_ge0(l) or not self.add_ge0(neg(l)):
            return False
        return True

    def set_const(self, k, val):
        if k in self.eqc:
            return self.eqc[k] == val
        lo, hi = rng(k)
        if (lo is not None and val < lo) or (hi is not None and val > hi):
            return False
        for x in self.neq:
            if x is self.norm(x):
                pass
        l = mklin(-val, {k: 1})
        if not self.consistent_with(l) or not self.consistent_with(neg(l)):
            return False
        self.facts = self.facts | {con(l), con(neg(l))}
        self.eqc[k] = val
        if k.op == 'bits':
            p = 0
            for src, lo_, n in k.a[0]:
                if isinstance(src, T) and src.op != 'lin':
                    if not self.setbits(src, lo_, n, (val >> p) & ((1 << n) - 1)):
                        return False
                p += n
        elif k.op != 'lin' and atomwidth(k) is not None and lo is not None and lo >= 0:
            self.setbits(k, 0, max(atomwidth(k), val.bit_length()), val)
        for x in self.neq:
            y = self.norm(x)
            if y.op == 'int' and y.a[0] == 0:
                return False
        return True

    def setbits(self, src, lo, n, v):
        m0, v0 = self.kb.get(src, (0, 0))
        m = ((1 << n) - 1) << lo
        v <<= lo
        if (v0 ^ v) & m & m0:
            return False
        m1, v1 = m0 | m, v0 | v
        self.kb[src] = (m1, v1)
        w = atomwidth(src)
        if w and (m1 & ((1 << w) - 1)) == (1 << w) - 1 and src not in self.eqc:
            return self.set_const(src, v1)
        return True

    def norm(self, t):
        """replace atoms with known constants / known bits"""
        if not self.eqc and not self.kb:
            return t
        if t.op == 'int':
            return t
        if t.op == 'lin':
            ch = False
            acc = I(t.a[0])
            for k, v in t.a[1]:
                n = self.norm1(k)
                if n is not k:
                    ch = True
                acc = add(acc, mulc(n, v))
            return acc if ch else t
        return self.norm1(t)

    def norm1(self, t):
        v = self.eqc.get(t)
        if v is not None:
            return I(v)
        if t.op == 'bits':
            ch = False
            segs = []
            for src, lo, n in t.a[0]:
                if isinstance(src, T):
                    if src in self.eqc:
                        segs += bslice(constsegs(self.eqc[src]), lo, n)
                        ch = True
                        continue
                    if src in self.kb:
                        m, val = self.kb[src]
                        mm = (m >> lo) & ((1 << n) - 1)
                        if mm:
                            ch = True
                            for b in range(n):
                                if mm >> b & 1:
                                    segs.append(((val >> (lo + b)) & 1, 0, 1))
                                else:
                                    segs.append((src, lo + b, 1))
                            continue
                segs.append((src, lo, n))
            if ch:
                return frombits(segs)
            return t
        if t.op == 'ge0':
            l = self.norm(t.a[0])
            return ge0(l) if l is not t.a[0] else t
        if t.op == 'eq0':
            l = self.norm(t.a[0])
            return eq0(l) if l is not t.a[0] else t
        if t.op == 'not':
            return bnot_bool(self.norm1(t.a[0]))
        if t.op == 'bnot':
            x = self.norm1(t.a[0])
            if x.op == 'int' and atomwidth(t):
                return I(~x.a[0] & ((1 << atomwidth(t)) - 1))
        return t

    def truth(self, c):
        """True/False/None"""
        c = self.norm(c)
        if c.op == 'int':
            return bool(c.a[0])
        if c.op == 'not':
            r = self.truth(c.a[0])
            return None if r is None else not r
        if c.op == 'ge0':
            l = c.a[0]
            if self.entails(l):
                return True
            if not self.consistent_with(l):
                return False
            return None
        if c.op == 'eq0':
            l = c.a[0]
            if l in self.neq or neg(l) in self.neq:
                return False
            if not self.consistent_with(l) or not self.consistent_with(neg(l)):
                return False
            if self.entails(l) and self.entails(neg(l)):
                return True
            return None
        if c.op == 'band_':
            r = [self.truth(x) for x in c.a]
            return False if False in r else True if None not in r else None
        if c.op == 'bor_':
            r = [self.truth(x) for x in c.a]
            return True if True in r else False if None not in r else None
        return None

    def assume(self, c, want):
        """refine by boolean term; False if infeasible"""
        c = self.norm(c)
        if c.op == 'int':
            return bool(c.a[0]) == want
        if c.op == 'not':
            return self.assume(c.a[0], not want)
        if c.op == 'ge0':
            l = c.a[0]
            return self.add_ge0(l if want else addc(neg(l), -1))
        if c.op == 'eq0':
            l = c.a[0]
            if want:
                if l in self.neq or neg(l) in self.neq:
                    return False
                return self.add_eq0(l)
            t = self.truth(c)
            if t is True:
                return False
            self.neq = self.neq | {l}
            if len(lin(l)[1]) == 1 or True:
                if self.entails(l):
                    return self.add_ge0_raw(addc(l, -1))
                if self.entails(neg(l)):
                    return self.add_ge0_raw(addc(neg(l), -1))
            return True
        if c.op == 'band_':
            if want:
                return all(self.assume(x, True) for x in c.a)
            return self.truth(c) is not True
        if c.op == 'bor_':
            if not want:
                return all(self.assume(x, False) for x in c.a)
            return self.truth(c) is not False
        return self.set_const(c, 1 if want else 0)

    def bool_cases(self, c):
        """[(state, truth)]: a case split of the boolean term, down to its comparisons"""
        c = self.norm(c)
        if c.op == 'int':
            return [(self, bool(c.a[0]))]
        if c.op == 'not':
            return [(s, not v) for s, v in self.bool_cases(c.a[0])]
        if c.op in ('band_', 'bor_'):
            stop = c.op == 'bor_'
            out, open_ = [], [self]
            for x in c.a:
                nxt = []
                for s in open_:
                    for s2, v in s.bool_cases(x):
                        if v == stop:
                            out.append((s2, stop))
                        else:
                            nxt.append(s2)
                open_ = nxt
            return out + [(s, not stop) for s in open_]
        out = []
        for v in (True, False):
            s = self.copy()
            if s.assume(c, v):
                out.append((s, v))
        return out

    # ---- events
    def emit(self, *e):
        self.ev = (self.ev, e)

    def events(self):
        out = []
        x = self.ev
        while x is not None:
            out.append(x[1])
            x = x[0]
        out.reverse()
        return out
