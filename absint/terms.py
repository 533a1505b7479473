"""Interned value terms, linear expressions and bit-provenance vectors of the abstract domain."""
_tab = {}
_cnt = [0]
USIZE = (1 << 64) - 1
ISIZE = (1 << 63) - 1


class T:
    __slots__ = ('op', 'a', 'ty', 'id', 'lo', 'hi', 'syms')

    def __repr__(self):
        return show(self)


_ints = {}
_tabs = {}


def use(prog):
    """types are numbered per program, so terms are interned per program too"""
    global _tab
    _tab = _tabs.setdefault(id(prog), (prog, {}))[1]


def mk(op, *a, ty=None, rng=None):
    k = (op,) + a
    tab = _ints if op == 'int' else _tab
    t = tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = a
        t.ty = ty
        _cnt[0] += 1
        t.id = _cnt[0]
        t.lo, t.hi = rng if rng else (None, None)
        t.syms = None
        tab[k] = t
    else:
        if t.ty is None and ty is not None:
            t.ty = ty
        if rng and t.lo is None:
            t.lo, t.hi = rng
    return t


def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return '(' + ' '.join(show(x, d) for x in t) + ')'
        return str(t)
    if d > 7:
        return '…'
    if t.op == 'int':
        return str(t.a[0])
    if t.op == 'sym':
        return str(t.a[0]).split('#')[0]
    if t.op == 'lin':
        s = []
        for at, c in t.a[1]:
            s.append((('%+d*' % c) if c not in (1, -1) else '+' if c == 1 else '-') + show(at, d + 1))
        if t.a[0]:
            s.append('%+d' % t.a[0])
        return '[' + ''.join(s) + ']'
    if t.op == 'bits':
        return 'bits{' + ','.join((str(src) + '#' + str(n)) if not isinstance(src, T) else '%s[%d+%d]' % (show(src, d + 1), lo, n) for src, lo, n in t.a[0]) + '}'
    if t.op == 'fld':
        return show(t.a[0], d + 1) + '.' + (str(t.a[1]) + '/' if t.a[1] else '') + str(t.a[2])
    if t.op == 'deref':
        return '*' + show(t.a[0], d + 1)
    if t.op == 'agg':
        return '{%s:%s %s}' % (t.a[0], t.a[1], ', '.join(show(x, d + 1) for x in t.a[2]))
    if t.op == 'ref':
        return '&' + showplace(t.a[0], t.a[1], d)
    if t.op == 'slice':
        return '&%s[%s;+%s]' % (showplace(t.a[0], t.a[1], d), show(t.a[2], d + 1), show(t.a[3], d + 1))
    if t.op == 'phi':
        return 'φ' + str(t.id)
    return t.op + '(' + ', '.join(show(x, d + 1) for x in t.a) + ')'


def showplace(root, path, d=0):
    if root[0] == 'S':
        r = '*' + show(root[1], d + 1)
    elif root[0] == 'L':
        r = 'L%s.%s' % (root[1].id, root[2])
    else:
        r = str(root[0]) + '(' + ','.join(show(x, d + 1) for x in root[1:]) + ')'
    for e in path:
        if e[0] == 'f':
            r += '.' + (str(e[1]) + '/' if e[1] else '') + str(e[2])
        elif e[0] == 'i':
            r += '[' + show(e[1], d + 1) + ']'
        else:
            r += '.@'
    return r


_ic = {}


def I(n):
    t = _ic.get(n)
    if t is None:
        t = _ic[n] = mk('int', n, rng=(n, n))
    return t


TRUE, FALSE = I(1), I(0)


def isint(t):
    return t.op == 'int'


def lin(t):
    if t.op == 'int':
        return t.a[0], {}
    if t.op == 'lin':
        return t.a[0], dict(t.a[1])
    return 0, {t: 1}


def mklin(c, d):
    d = {k: v for k, v in d.items() if v}
    if not d:
        return I(c)
    if c == 0 and len(d) == 1:
        (k, v), = d.items()
        if v == 1:
            return k
    items = tuple(sorted(d.items(), key=lambda kv: kv[0].id))
    return mk('lin', c, items)


def add(x, y):
    if x.op == 'int' and y.op == 'int':
        return I(x.a[0] + y.a[0])
    c, d = lin(x)
    c2, d2 = lin(y)
    for k, v in d2.items():
        d[k] = d.get(k, 0) + v
    return mklin(c + c2, d)


def neg(x):
    c, d = lin(x)
    return mklin(-c, {k: -v for k, v in d.items()})


def sub(x, y):
    return add(x, neg(y))


def addc(x, n):
    return add(x, I(n))


def mulc(x, n):
    c, d = lin(x)
    return mklin(c * n, {k: v * n for k, v in d.items()})


def mul(x, y):
    if x.op == 'int':
        return mulc(y, x.a[0])
    if y.op == 'int':
        return mulc(x, y.a[0])
    a, b = sorted((x, y), key=lambda t: t.id)
    return mk('mul', a, b, rng=mulrng(rng(x), rng(y)))


def mulrng(r, s):
    if None in r or None in s:
        return None
    v = [r[0] * s[0], r[0] * s[1], r[1] * s[0], r[1] * s[1]]
    return (min(v), max(v))


def rng(t):
    if t.op == 'lin':
        lo = hi = t.a[0]
        for k, v in t.a[1]:
            l, h = rng(k)
            if v < 0:
                l, h = h, l
            lo = None if lo is None or l is None else lo + v * l
            hi = None if hi is None or h is None else hi + v * h
        return lo, hi
    return t.lo, t.hi


# ---- bits -------------------------------------------------------------------------------------
def atomwidth(t):
    if t.hi is None or t.lo is None or t.lo < 0:
        return None
    return max(1, t.hi.bit_length())


def bits_of(t):
    """little-endian list of segments (src, lo, n); src in {0,1} for constant runs; None if unknown"""
    if t.op == 'int':
        return constsegs(t.a[0])
    if t.op == 'bits':
        return list(t.a[0])
    if t.op == 'lin':
        c, items = t.a
        if c >= 0 and all(v > 0 and (v & (v - 1)) == 0 for _, v in items):
            acc = constsegs(c)
            for k, v in items:
                b = bits_of(k)
                if b is None:
                    return None
                acc = bor_disjoint(acc, [(0, 0, v.bit_length() - 1)] + b if v > 1 else b)
                if acc is None:
                    break
            if acc is not None:
                return acc
        lo, hi = rng(t)
        if lo is not None and lo >= 0 and hi is not None:
            return [(t, 0, max(1, hi.bit_length()))]
        return None
    w = atomwidth(t)
    if w is None:
        return None
    return [(t, 0, w)]


def constsegs(n):
    r = []
    while n:
        b = n & 1
        k = 0
        while n and (n & 1) == b:
            k += 1
            n >>= 1
        r.append((b, 0, k))
    return r


def bnorm(segs):
    out = []
    for src, lo, n in segs:
        if n <= 0:
            continue
        if isinstance(src, T) and src.op == 'bits':
            out.extend(bslice(list(src.a[0]), lo, n))
            continue
        if isinstance(src, T) and src.op == 'int':
            v = (src.a[0] >> lo) & ((1 << n) - 1)
            cs = constsegs(v)
            tot = sum(x[2] for x in cs)
            out.extend(cs)
            if tot < n:
                out.append((0, 0, n - tot))
            continue
        out.append((src, lo, n))
    m = []
    for src, lo, n in out:
        if m:
            s2, l2, n2 = m[-1]
            if s2 is src or (not isinstance(src, T) and not isinstance(s2, T) and s2 == src):
                if not isinstance(src, T):
                    m[-1] = (src, 0, n2 + n)
                    continue
                if l2 + n2 == lo:
                    m[-1] = (src, l2, n2 + n)
                    continue
        m.append((src, lo, n))
    while m and not isinstance(m[-1][0], T) and m[-1][0] == 0:
        m.pop()
    return m


def bslice(segs, lo, n):
    """bits [lo, lo+n) of segs, padded with zero"""
    out = []
    pos = 0
    for src, l, k in segs:
        s, e = max(pos, lo), min(pos + k, lo + n)
        if s < e:
            out.append((src, (l + s - pos) if isinstance(src, T) else 0, e - s))
        pos += k
    tot = sum(x[2] for x in out)
    if tot < n:
        out.append((0, 0, n - tot))
    return out


def frombits(segs):
    segs = bnorm(segs)
    if not segs:
        return I(0)
    if all(not isinstance(s[0], T) for s in segs):
        v, p = 0, 0
        for b, _, n in segs:
            if b:
                v |= ((1 << n) - 1) << p
            p += n
        return I(v)
    if len(segs) == 1:
        src, lo, n = segs[0]
        if lo == 0:
            if src.op == 'lin':
                r = rng(src)
                w = r[1].bit_length() if r[1] is not None else None
            else:
                w = atomwidth(src)
            if w is not None and n >= w:
                return src
    hi, lo_, p = 0, 0, 0
    for b, l, n in segs:
        if isinstance(b, T):
            hi |= ((1 << n) - 1) << p
        elif b:
            hi |= ((1 << n) - 1) << p
            lo_ |= ((1 << n) - 1) << p
        p += n
    if len(segs) == 1 and segs[0][1] == 0 and isinstance(segs[0][0], T):
        r = rng(segs[0][0])
        if r[1] is not None:
            hi = min(hi, r[1])
    return mk('bits', tuple(segs), rng=(lo_, hi))


def zipbits(x, y, w):
    """split two segment lists to common boundaries"""
    cuts = {0, w}
    for s in (x, y):
        p = 0
        for _, _, n in s:
            p += n
            if p < w:
                cuts.add(p)
    cuts = sorted(cuts)
    for a, b in zip(cuts, cuts[1:]):
        sx, sy = bslice(x, a, b - a), bslice(y, a, b - a)
        yield sx[0], sy[0], b - a


def bor_disjoint(x, y):
    w = max(sum(s[2] for s in x), sum(s[2] for s in y))
    if w == 0:
        return []
    out = []
    for a, b, n in zipbits(x, y, w):
        if not isinstance(a[0], T) and a[0] == 0:
            out.append(b)
        elif not isinstance(b[0], T) and b[0] == 0:
            out.append(a)
        else:
            return None
    return bnorm(out)


def band(x, y, w):
    return _bop('and', x, y, w)


def bor(x, y, w):
    return _bop('or', x, y, w)


def bxor(x, y, w):
    return _bop('xor', x, y, w)


def _bop(op, x, y, w):
    if x.op == 'int' and y.op == 'int':
        a, b = x.a[0], y.a[0]
        return I({'and': a & b, 'or': a | b, 'xor': a ^ b}[op])
    bx, by = bits_of(x), bits_of(y)
    if bx is None or by is None:
        a, b = sorted((x, y), key=lambda t: t.id)
        return mk('bop', op, a, b, rng=(0, (1 << w) - 1))
    out = []
    for a, b, n in zipbits(bx, by, w):
        ca, cb = not isinstance(a[0], T), not isinstance(b[0], T)
        if ca and not cb:
            a, b, ca, cb = b, a, cb, ca
        # now b const if any
        if ca and cb:
            u, v = a[0], b[0]
            out.append(({'and': u & v, 'or': u | v, 'xor': u ^ v}[op], 0, n))
        elif cb:
            v = b[0]
            if op == 'and':
                out.append(a if v else (0, 0, n))
            elif op == 'or':
                out.append((1, 0, n) if v else a)
            else:
                out.append(bnotseg(a) if v else a)
        elif a == b:
            out.append((0, 0, n) if op == 'xor' else a)
        else:
            p, q = sorted((a, b), key=lambda s: (s[0].id, s[1]))
            o = mk('bop', op, frombits([p]), frombits([q]), rng=(0, (1 << n) - 1))
            out.append((o, 0, n))
    return frombits(out)


def bnotseg(s):
    src, lo, n = s
    if not isinstance(src, T):
        return (1 - src, 0, n)
    if src.op == 'bnot':
        return (src.a[0], lo, n)
    w = atomwidth(src) or (lo + n)
    return (mk('bnot', src, rng=(0, (1 << w) - 1)), lo, n)


def bnot(x, w):
    b = bits_of(x)
    if b is None:
        return mk('bnot_', x, w, rng=(0, (1 << w) - 1))
    b = bslice(b, 0, w)
    return frombits([bnotseg(s) for s in b])


def bshl(x, k, w):
    b = bits_of(x)
    if b is None:
        return mk('shl', x, k, w, rng=(0, (1 << w) - 1))
    return frombits(bslice([(0, 0, k)] + b if k else b, 0, w))


def bshr(x, k):
    b = bits_of(x)
    if b is None:
        return mk('shr', x, k)
    return frombits(bslice(b, k, max(1, sum(s[2] for s in b) - k)))


def btrunc(x, w):
    r = rng(x)
    if r[0] is not None and r[1] is not None and r[0] >= 0 and r[1] < (1 << w):
        return x
    b = bits_of(x)
    if b is None:
        return mk('trunc', x, w, rng=(0, (1 << w) - 1))
    return frombits(bslice(b, 0, w))


def bytes_of(x, n):
    """n little-endian byte terms of integer x"""
    b = bits_of(x)
    if b is None:
        return [mk('byteof', x, k, rng=(0, 255)) for k in range(n)]
    return [frombits(bslice(b, 8 * k, 8)) for k in range(n)]


def from_bytes(bs):
    """integer from little-endian byte terms"""
    segs = []
    for b in bs:
        s = bits_of(b)
        if s is None:
            s = [(mk('u8of', b, rng=(0, 255)), 0, 8)]
        segs += bslice(s, 0, 8)
    return frombits(segs)


# ---- booleans ---------------------------------------------------------------------------------
def bnot_bool(x):
    if x.op == 'int':
        return I(1 - x.a[0])
    if x.op == 'not':
        return x.a[0]
    return mk('not', x, rng=(0, 1))


def ge0(l):
    r = rng(l)
    if r[0] is not None and r[0] >= 0:
        return TRUE
    if r[1] is not None and r[1] < 0:
        return FALSE
    # a 0/1 atom compared against 1 or 0
    if l.op == 'lin' and len(l.a[1]) == 1:
        (k, v), = l.a[1]
        if rng(k) == (0, 1):
            if v == 1 and l.a[0] == -1:
                return k
            if v == -1 and l.a[0] == 0:
                return bnot_bool(k)
    return mk('ge0', l, rng=(0, 1))


def eq0(l):
    if l.op == 'int':
        return I(int(l.a[0] == 0))
    r = rng(l)
    if (r[0] is not None and r[0] > 0) or (r[1] is not None and r[1] < 0):
        return FALSE
    c, d = lin(l)
    if len(d) == 1:
        (k, v), = d.items()
        if c % v:
            return FALSE
        val = -c // v
        rk = rng(k)
        if (rk[0] is not None and val < rk[0]) or (rk[1] is not None and val > rk[1]):
            return FALSE
        if k.op == 'bits':
            # strip constant runs
            segs = list(k.a[0])
            p = 0
            keep = []
            for s in segs:
                vv = (val >> p) & ((1 << s[2]) - 1)
                if not isinstance(s[0], T):
                    if vv != (((1 << s[2]) - 1) if s[0] else 0):
                        return FALSE
                else:
                    keep.append((s, vv))
                p += s[2]
            if val >> p:
                return FALSE
            if len(keep) == 1:
                k2 = frombits([keep[0][0]])
                if k2 is not k:
                    return eq0(addc(k2, -keep[0][1]))
            elif len(keep) < len(segs):
                k2 = frombits([s for s, _ in keep])
                v2, p = 0, 0
                for s, vv in keep:
                    v2 |= vv << p
                    p += s[2]
                if k2 is not k:
                    return eq0(addc(k2, -v2))
        if rk == (0, 1):
            return k if val == 1 else bnot_bool(k)
        l = mklin(-val, {k: 1})
    else:
        # canonical sign
        first = min(d, key=lambda t: t.id)
        if d[first] < 0:
            l = neg(l)
    return mk('eq0', l, rng=(0, 1))


def asint(b):
    """boolean term as an integer 0/1 term"""
    return b


def tsyms(t):
    """set of leaf terms (syms, phis, rets) a term mentions"""
    if t.syms is not None:
        return t.syms
    s = set()
    _collect(t.a, s)
    if t.op in ('sym', 'phi', 'ret'):
        s.add(t)
    t.syms = frozenset(s)
    return t.syms


def _collect(x, s):
    if isinstance(x, T):
        s |= tsyms(x)
    elif isinstance(x, tuple):
        for y in x:
            _collect(y, s)


def subst(t, m, memo=None):
    """replace whole terms by terms, rebuilding canonical forms"""
    if memo is None:
        memo = {}
    return _subst(t, m, memo)


def _subst(t, m, memo):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(_subst(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == 'int' or (not t.a):
        r = t
    elif t.op == 'lin':
        r = I(t.a[0])
        for k, v in t.a[1]:
            r = add(r, mulc(_subst(k, m, memo), v))
    elif t.op == 'bits':
        segs = []
        ok = True
        for s in t.a[0]:
            if isinstance(s[0], T):
                n = _subst(s[0], m, memo)
                if n is s[0]:
                    segs.append(s)
                else:
                    b = bits_of(n)
                    if b is None:
                        ok = False
                        break
                    segs += bslice(b, s[1], s[2])
            else:
                segs.append(s)
        r = frombits(segs) if ok else mk('bits?', _subst(t.a, m, memo), rng=(t.lo, t.hi))
    elif t.op == 'ge0':
        r = ge0(_subst(t.a[0], m, memo))
    elif t.op == 'eq0':
        r = eq0(_subst(t.a[0], m, memo))
    elif t.op == 'not':
        r = bnot_bool(_subst(t.a[0], m, memo))
    else:
        na = _subst(t.a, m, memo)
        r = t if na == t.a else mk(t.op, *na, ty=t.ty, rng=(t.lo, t.hi) if t.lo is not None or t.hi is not None else None)
    memo[t] = r
    return r
