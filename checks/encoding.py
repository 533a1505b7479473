"""The encoder: buffer discipline (C05), counts (C06), wire format in both directions (C07), entry headers (the writing half of C11)."""
from base import *
from util import *
import wire, decoding
from wire import PK, getp
from decoding import on_value, run, call_one, be, uniq, newtype_val

ENC = PK + 'encoder::'
REC = PK + 'records::'
SECT = decoding.SECT
ADD = {'Question': 'question', 'Answer': 'add_answer', 'Authority': 'add_authority', 'Additional': 'add_additional'}


def byte_of(t, i, n):
    """byte i of the n-byte big-endian encoding of t"""
    b = bits_of(t)
    return frombits(bslice(b, 8 * (n - 1 - i), 8) if b is not None else [(t, 8 * (n - 1 - i), 8)])


class Enc:
    """how the encoder is represented, read off from what finish() returns and leaves in the buffer"""
    def __init__(self, c, p):
        self.p = p
        b = self.finb = fn(p, ENC + 'MessageEncoder::finish')
        ip = self.finip = c.interp(p, exact=1)
        ty = b['locals'][1]
        self.paths = []
        self.buf = None
        self.walk(ty, (), 0)
        if self.buf is None:
            raise Unknown('the buffer of MessageEncoder')
        d0 = self.fin0 = mk('sym', 'enc', ty=ty)
        st = State()
        self.assume(ip, st, d0, pos=False)
        self.finres = run(ip, st, b, [d0], 'finish')
        c.account(ip)
        self.pos = self.trunc = None
        self.cnt = {}
        oks = [(s, v.a[2][0]) for s, v in self.finres if v.op == 'agg' and v.a[1] == 0]
        errs = [s for s, v in self.finres if v.op == 'agg' and v.a[1] == 1]
        for s, v in oks:
            for path, t in self.paths:
                x = s.norm(getp(ip, s, d0, path))
                if p.types[t]['s'] == 'usize' and x is s.norm(v):
                    self.pos = path
        if self.pos is None and oks and sum(p.types[t]['s'] == 'usize' for _, t in self.paths) == 1:
            self.pos = [q for q, t in self.paths if p.types[t]['s'] == 'usize'][0]
        bools = [q for q, t in self.paths if p.types[t]['s'] == 'bool']
        for q in bools:
            if all(self.truth(ip, s, getp(ip, State(), d0, q)) is False for s, _ in oks) and all(self.truth(ip, s, getp(ip, State(), d0, q)) is True for s in errs) and oks and errs:
                self.trunc = q
        if self.trunc is None:
            for q in bools:
                if any(self.truth(ip, s, getp(ip, State(), d0, q)) is not None or self.tc_is(ip, s, d0, getp(ip, State(), d0, q)) for s, _ in self.finres):
                    self.trunc = q
        if self.trunc is None and len(bools) == 1:
            self.trunc = bools[0]
        for s, v in self.finres:
            ct, off, n = self.content(ip, s, d0)
            for k, sec in enumerate(SECT):
                w = be(ip, s, ct, addc(off, 4 + 2 * k), 2)
                for path, t in self.paths:
                    if p.types[t]['s'] == 'u16' and same_bits(s, w, getp(ip, s, d0, path)):
                        self.cnt[sec] = path
        if self.pos is None or self.trunc is None:
            raise Unknown('representation of the encoder')

    def walk(self, ty, path, d):
        p = self.p
        t = p.types[ty]
        if t['k'] == 'ref' and p.tk(t['e']) == 'slice' and self.buf is None:
            self.buf = path
        elif t['k'] == 'struct' and d < 5 and t['crate'].startswith('uwuhi'):
            for i, f in enumerate(p.fields(ty)):
                self.walk(f, path + (('f', None, i, f),), d + 1)
        elif t['s'] in ('usize', 'u16', 'bool', 'u32', 'u64'):
            self.paths.append((path, ty))

    def truth(self, ip, s, x):
        for v in (0, 1):
            s2 = s.copy()
            if not s2.assume(eq0(addc(asint(x), -v)), True):
                return not v
        return None

    def tc_is(self, ip, s, d0, x):
        ct, off, n = self.content(ip, s, d0)
        w = s.norm(ip.proj(s, ct, ('i', addc(off, 2))))
        bit = frombits(bslice(bits_of(w), 1, 1))
        return same_bits(s, bit, asint(x))

    def content(self, ip, s, d):
        return ip.slice_content(s, getp(ip, s, d, self.buf))

    def length(self, ip, s, d):
        return ip.slice_of(s, getp(ip, s, d, self.buf), None)[3]

    def get(self, ip, s, d, path):
        return s.norm(getp(ip, s, d, path))

    def assume(self, ip, st, d, pos=True):
        n = self.length(ip, st, d)
        st.assume(ge0(addc(n, -12)), True)
        if pos:
            st.assume(ge0(sub(n, self.get(ip, st, d, self.pos))), True)
            st.assume(ge0(addc(self.get(ip, st, d, self.pos), -12)), True)

    def ip(self, c, **o):
        o.setdefault('exact', 1)
        return c.interp(self.p, **o)


def sect_fn(p, s, item):
    def pick(b):
        me = b.get('self') or b['path']
        return ('section::' + s) in me or 'section::' not in me
    return fn(p, ENC + 'MessageEncoder::' + item, pick)


# ---- what was written --------------------------------------------------------------------------

def expand(ip, st, v, d=5):
    """a symbolic struct of the crate with its fields spelled out"""
    t = ip.p.types[v.ty] if v.ty is not None else None
    if v.op == 'agg' or t is None or t['k'] != 'struct' or not t['crate'].startswith('uwuhi') or not d:
        return v
    fs = ip.p.fields(v.ty)
    return mk('agg', v.ty, 0, tuple(expand(ip, st, ip.proj(st, v, ('f', None, i, f)), d - 1) for i, f in enumerate(fs)), ty=v.ty)


def cows(ip, st, v, var):
    """every Cow in the value is the given variant"""
    if v.op == 'agg':
        return mk('agg', v.a[0], v.a[1], tuple(cows(ip, st, x, var) if isinstance(x, T) else x for x in v.a[2]), ty=v.ty)
    t = ip.p.types[v.ty] if v.ty is not None else {}
    if t.get('path') == 'std::borrow::Cow':
        return mk('agg', v.ty, var, (ip.proj(st, v, ('f', var, 0, t['v'][var]['f'][0]['t'])),), ty=v.ty)
    return v


def mem(ip, s, k):
    v = s.mem.get(k)
    return v if v is not None else ip.default(s, k)


class Stray(Exception):
    pass


def pieces(ip, s, o, n, src, so):
    """a write of src[so,so+n) at o as parts with their positions"""
    if src.op == 'seq' and all(q[0] == 'o' for q in src.a[0]):
        a, k = s.norm(so), s.norm(n)
        if a.op == 'int' and k.op == 'int':
            return [('one', addc(o, i), src.a[0][a.a[0] + i][1]) for i in range(k.a[0])]
    n = s.norm(n)
    if n.op == 'int' and 0 <= n.a[0] <= 32:
        return [('one', addc(o, i), s.norm(ip.proj(s, src, ('i', addc(so, i))))) for i in range(n.a[0])]
    return [('span', o, src, so, n)]


def written(ip, s, ct, lo, hi, base, depth=6):
    """the parts of ct[lo,hi) in order, where everything was written on top of the content base; Stray for a write before lo"""
    return ordered(s, fill(ip, s, ct, [(lo, hi)], lo, base, depth), lo)


def ordered(s, got, lo):
    out, cur = [], lo
    rest = list(got)
    while rest:
        for g in rest:
            if s.entails_eq(g[0], cur):
                break
        else:
            raise Unknown('order of writes')
        rest.remove(g)
        out += g[2]
        cur = g[1]
    return out


def fill(ip, s, ct, holes, lo, base, depth):
    """what the writes that made ct from base put into the holes: [(from, to, parts)]"""
    got = []
    while True:
        holes = [(a, b) for a, b in holes if not s.entails_eq(a, b)]
        if ct is base:
            break
        if ct.op in ('wr', 'upd'):
            if ct.op == 'wr':
                prev, o, n, src, so = ct.a
            else:
                prev, o, v = ct.a
                n, src, so = I(1), mk('seq', (('o', v),)), I(0)
            e = add(o, n)
            ct = prev
            if s.entails_eq(n, I(0)):
                continue
            if not s.entails(sub(o, lo)):
                raise Stray('write at %s' % show(o)) if s.entails(addc(sub(lo, o), -1)) else Unknown('position of a write at %s' % show(o))
            new = []
            for a, b in holes:
                if s.entails(sub(o, b)) or s.entails(sub(a, e)):
                    new.append((a, b))
                elif s.entails(sub(o, a)) and s.entails(sub(b, e)):
                    got.append((o, e, pieces(ip, s, o, n, src, so)))
                    new += [(a, o), (e, b)]
                elif s.entails(sub(a, o)) and s.entails(sub(e, b)):
                    got.append((a, b, pieces(ip, s, a, sub(b, a), src, add(so, sub(a, o)))))
                elif s.entails(sub(o, a)) and s.entails(sub(e, b)):
                    got.append((o, b, pieces(ip, s, o, sub(b, o), src, so)))
                    new.append((a, o))
                else:
                    raise Unknown('overlap of writes')
            holes = new
            continue
        if ct.op == 'phi' and depth:
            return got + phi_written(ip, s, ct, holes, lo, base, depth)
        raise Unknown('content %s' % show(ct)[:80])
    return got + [(a, b, [('old', a, b)]) for a, b in holes]


def flat(got):
    return [(a, b, [q[:4] if q[0] != 'each' else (q[0], q[1], q[3]) for q in parts]) for a, b, parts in got]


def phi_written(ip, s, ct, holes, lo, base, depth):
    heads = {}
    for m, recs in ip.loops.items():
        if not (isinstance(m, T) and m.op == 'loop'):
            continue
        for r in recs:
            for k, v in r.head.mem.items():
                path = find_path(v, ct)
                if path is not None:
                    if not any(s0.mem.get(k) is v for s0 in ip.loop_init.get(m, [])):
                        heads.setdefault(m, []).append((r, k, path))
                    break
    if len(heads) != 1:
        raise Unknown('the loop that wrote %s' % show(ct))
    (m, hs), = heads.items()
    shp = hs[0][0].shp
    k, path = hs[0][1:]
    if any(r.shp != shp for r, *_ in hs):
        raise Unknown('loop shapes')
    if any(r.shp != shp and ip.sshape(r.back) == shp for r in ip.loops[m]):
        raise Unknown('loop shapes feeding each other')
    hole = pl = None
    for h in holes:
        for kk, v in hs[0][0].head.mem.items():
            pp = find_path(v, h[1])
            if pp is not None and h[1].op == 'phi':
                hole, pl = h, (kk, pp)
                break
    others = [h for h in holes if h is not hole]
    if holes and hole is None:
        raise Unknown('write position at the loop')
    its = []
    for r, kk, _ in hs:
        if ip.sshape(r.back) != shp:
            continue
        bct = walk(ip, r.back, mem(ip, r.back, k), path)
        if pl is None:
            if bct is not ct:
                raise Unknown('loop before the entry')
            continue
        y = r.back.norm(walk(ip, r.back, mem(ip, r.back, pl[0]), pl[1]))
        if bct is ct and y is r.back.norm(hole[1]):
            its.append((r, []))
            continue
        its.append((r, written(ip, r.back, bct, hole[1], y, ct, depth - 1)))
    pres = []
    for s0 in ip.loop_init.get(m, []):
        if ip.sshape(s0) != shp:
            continue
        c0 = walk(ip, s0, mem(ip, s0, k), path)
        if pl is None:
            fill(ip, s0, c0, [], lo, base, depth - 1)
            pres.append((None, []))
            continue
        y0 = s0.norm(walk(ip, s0, mem(ip, s0, pl[0]), pl[1]))
        pres.append((y0, fill(ip, s0, c0, others + [(hole[0], y0)], lo, base, depth - 1)))
    if not pres:
        raise Unknown('how the loop is entered')
    if hole is None:
        return []
    y0, got = pres[0]
    if any(y is not y0 or flat(g) != flat(got) for y, g in pres[1:]):
        raise Unknown('different contents before a loop')
    return got + [(y0, hole[1], [('each', y0, its, m, ip.loop_init.get(m, []), s)])]


# ---- layouts -----------------------------------------------------------------------------------

def slice_iter(ip, s, each, content, off, n):
    """(verdict, parts per iteration with the element's index): does the loop go over content[off,off+n) once, in order?"""
    _, _, its, m, inits, send = each
    if not its:
        return None, []
    idx = None
    for r, parts in its:
        for t in set().union(*[subterms(x) for q in parts for x in q[1:] if isinstance(x, T)] or [set()]):
            if t.op == 'elem' and t.a[0] is content and t.a[1] is not None:
                for kk, v in r.head.mem.items():
                    for w in leaves_i(v):
                        if w.op == 'phi' and r.back.entails_eq(t.a[1], w):
                            idx = (kk, find_path_i(v, w), w) if idx is None else idx
    if idx is None:
        return None, []
    kk, path, w = idx
    for r, parts in its:
        y = r.back.norm(walk_i(ip, r.back, mem(ip, r.back, kk), path))
        if not r.back.entails_eq(y, addc(w, 1)):
            return None, []
    shp = its[0][0].shp
    for s0 in inits:
        if ip.sshape(s0) == shp:
            if not s0.entails_eq(walk_i(ip, s0, mem(ip, s0, kk), path), off):
                return None, []
    if not s.entails_eq(w, add(off, n)):
        return None, []
    return True, [(r, parts, w) for r, parts in its]


def leaves_i(v, d=6):
    if isinstance(v, T):
        if v.op in ('agg', 'iter', 'vec', 'box') and d:
            for x in v.a:
                if isinstance(x, tuple):
                    for y in x:
                        yield from leaves_i(y, d - 1)
                else:
                    yield from leaves_i(x, d - 1)
        else:
            yield v


def find_path_i(v, w, d=6):
    if v is w:
        return ()
    if isinstance(v, T) and v.op in ('agg', 'iter', 'vec', 'box') and d:
        for i, x in enumerate(v.a):
            if isinstance(x, tuple):
                for j, y in enumerate(x):
                    r = find_path_i(y, w, d - 1)
                    if r is not None:
                        return ((i, j),) + r
            else:
                r = find_path_i(x, w, d - 1)
                if r is not None:
                    return (i,) + r
    elif isinstance(v, T) and v.op == 'lin' and d and w in [a for a, _ in v.a[1]]:
        c = [k for a, k in v.a[1] if a is w][0]
        if len(v.a[1]) == 1 and c == 1:
            return (('-', v.a[0]),)
    return None


def walk_i(ip, s, v, path):
    for e in path:
        if isinstance(e, tuple):
            if e[0] == '-':
                v = addc(v, -e[1])
            else:
                v = v.a[e[0]][e[1]]
        else:
            v = v.a[e]
    return v


class Match:
    def __init__(self, ip, s, parts, where):
        self.ip, self.s, self.parts, self.where = ip, s, parts, where
        self.i = 0

    def int(self, t, n, cont=None):
        """the next n bytes are t, most significant first -> verdict, detail"""
        q = self.parts[self.i:self.i + n]
        if len(q) < n or any(x[0] != 'one' for x in q):
            k = next((j for j, x in enumerate(q) if x[0] != 'one'), len(q))
            if k < len(q) and q[k][0] == 'each' or any(x[0] in ('span', 'each') for x in q):
                return False, 'where %d bytes belong: %s' % (n, desc(q))
            return False, 'missing bytes: %s' % desc(q)
        self.i += n
        if t is None:
            return True, ''
        for j, x in enumerate(q):
            v = self.same_byte(x[2], t, j, n)
            if v is not True:
                return v, 'byte %d of %s is %s' % (j, show(t), show(x[2]))
        return True, ''

    def same_byte(self, x, t, j, n):
        s = self.s
        x, t = s.norm(x), s.norm(t)
        if same_bits(s, x, byte_of(t, j, n)):
            return True
        if x.op == 'byteof' and x.a[1] == n - 1 - j and s.entails_eq(x.a[0], t):
            return True
        ph = lambda y: any(z.op == 'phi' for z in subterms(y))
        if x.op == 'byteof' and s.norm(sub(x.a[0], t)).op == 'int':
            return False
        return None if ph(x) or ph(t) else False

    def raw(self, ct, off, n):
        q = self.parts[self.i:self.i + n]
        if self.i < len(self.parts) and self.parts[self.i][0] == 'span':
            x = self.parts[self.i]
            self.i += 1
            good = x[2] is ct and self.s.entails_eq(x[3], off) and self.s.entails_eq(x[4], I(n))
            return good, desc([x])
        if len(q) < n or any(x[0] != 'one' for x in q):
            return False, 'where %d bytes belong: %s' % (n, desc(q))
        self.i += n
        for j, x in enumerate(q):
            if not same_bits(self.s, x[2], self.ip.proj(self.s, ct, ('i', addc(off, j)))):
                return False, 'byte %d is %s' % (j, show(x[2]))
        return True, ''

    def strings(self, sl, inner):
        """length-prefixed strings for every element of a slice; inner(state, element reference) -> content, off, len"""
        ct, off, n = sl
        if self.i >= len(self.parts):
            return False, 'nothing is written'
        e = self.parts[self.i]
        if e[0] != 'each':
            if self.s.entails_eq(n, I(0)):
                return True, ''
            return (False if e[0] in ('one', 'old') else None), 'a loop over the elements is missing: %s' % desc(self.parts[self.i:self.i + 2])
        self.i += 1
        v, its = slice_iter(self.ip, self.s, e, ct, off, n)
        if v is None:
            return None, 'the loop is not one over all elements'
        for r, parts, w in its:
            el = self.ip.proj(r.back, ct, ('i', w))
            ec, eo, en = inner(r.back, el, w)
            sub_ = Match(self.ip, r.back, parts, self.where)
            if sub_.parts and sub_.parts[0][0] == 'one':
                bits = bits_of(r.back.norm(en))
                want = frombits(bslice(bits, 0, 8)) if bits is not None else None
                if want is not None and not same_bits(r.back, sub_.parts[0][2], want) and not r.back.entails_eq(sub_.parts[0][2], en):
                    return False, 'length byte %s of a string of %s' % (show(sub_.parts[0][2]), show(en))
            else:
                return False, 'a length byte is missing: %s' % desc(parts)
            body = parts[1:]
            if r.back.entails_eq(en, I(0)) and not body:
                continue
            if len(body) != 1 or body[0][0] != 'span' or body[0][2] is not ec or not r.back.entails_eq(body[0][3], eo) or not r.back.entails_eq(body[0][4], en):
                return False, 'the string itself is %s' % desc(body)
        return True, ''

    def name(self, labels):
        def inner(st, el, w):
            import names
            b = names.label_bytes(self.ip, st, el)
            return b, I(0), self.ip.length(b)
        v, why = self.strings(labels, inner)
        if v is not True:
            return v, why
        z, w2 = self.int(I(0), 1)
        return z, 'the zero byte behind the labels: %s' % w2 if z is not True else ''

    def here(self):
        return self.parts[self.i][1] if self.i < len(self.parts) else None


def desc(q):
    return '; '.join('byte %s' % show(x[2]) if x[0] == 'one' else 'bytes %s[%s;+%s]' % (show(x[2])[:60], show(x[3]), show(x[4])) if x[0] == 'span' else 'nothing written' if x[0] == 'old' else 'a loop' for x in q[:6])


# ---- running the encoder -----------------------------------------------------------------------

class Op:
    """one call of question() / add_*() on an arbitrary encoder"""
    def __init__(self, c, p, rep, sec, rty=None, cow=0):
        self.c, self.p, self.rep, self.sec = c, p, rep, sec
        import names
        ip = self.ip = rep.ip(c)
        ip.struct_inv[names.LB] = names.label_inv(p)
        b = self.b = sect_fn(p, sec, ADD[sec])
        self.where = '%s%s' % (loc(b), ' (%s)' % rty if rty else '')
        st = State()
        ety = p.types[b['locals'][1]]['e']
        self.d0 = expand(ip, st, mk('sym', 'enc' + sec, ty=ety))
        rep.assume(ip, st, self.d0)
        self.root, ref = on_value(ip, st, self.d0, 'enc')
        self.nameref = mk('sym', 'name', ty=None)
        nb = fn(p, ENC + ('Question' if sec == 'Question' else 'ResourceRecord') + '::new')
        nty = nb['locals'][1]
        self.nameref = mk('sym', 'name', ty=nty)
        if sec == 'Question':
            (st, q), = run(ip, st, nb, [self.nameref], 'q')
            q = self.setters(st, q, 'Question', ('ty', 'class'))
        else:
            rty_id = [i for i, t in enumerate(p.types) if t.get('path') == REC + 'Record' and t['k'] == 'enum'][0]
            en = p.types[rty_id]
            var = [k for k, v in enumerate(en['v']) if v['n'] == rty][0]
            pty = en['v'][var]['f'][0]['t']
            self.rec = cows(ip, st, expand(ip, st, mk('sym', 'rec' + rty, ty=pty)), cow)
            self.rty = rty
            self.recroot, rref = on_value(ip, st, mk('agg', rty_id, var, (self.rec,), ty=rty_id), 'rec')
            self.recty = pty
            (st, q), = run(ip, st, nb, [self.nameref, rref], 'rr')
            q = self.setters(st, q, 'ResourceRecord', ('class', 'ttl'))
        self.st0 = st
        self.res = run(ip, st.copy(), b, [ref, q], ADD[sec])
        c.account(ip)

    def setters(self, st, q, ty, names_):
        self.args = {}
        for nm in names_:
            b = fn(self.p, ENC + ty + '::' + nm)
            a = mk('sym', nm, ty=b['locals'][2], rng=self.p.irange(b['locals'][2]))
            self.args[nm] = a
            (s2, q), = run(self.ip, st, b, [q, a], nm)
        return q

    def num(self, s, v):
        return newtype_val(self.ip, s, v)

    def labels(self, s, nameref):
        (s2, v), = call_one(self.c, self.ip, s, 'uwuhi::name::DomainName::labels', [nameref])
        return self.ip.slice_content(s2, v)

    def outcome(self, s):
        """(state, encoder after, truncated?) for both values of the flag that are possible"""
        d1 = self.ip.load(s, self.root, ())
        t = self.rep.get(self.ip, s, d1, self.rep.trunc)
        for s2, v in s.bool_cases(t):
            yield s2, d1, v

    def parts(self, s, d1):
        rep, ip = self.rep, self.ip
        ct, off, n = rep.content(ip, s, d1)
        oc, oo, on = rep.content(ip, self.st0, self.d0)
        p0, p1 = rep.get(ip, self.st0, self.d0, rep.pos), rep.get(ip, s, d1, rep.pos)
        if not (s.entails_eq(off, oo) and s.entails_eq(n, on)):
            raise Unknown('the buffer')
        return written(ip, s, ct, add(off, p0), add(off, p1), oc)


def entry(c, op, s, d1, rule, rdata=None):
    """the bytes of the entry as laid out by RFC 1035 4.1.2 / 4.1.3"""
    try:
        ps = op.parts(s, d1)
    except Stray as e:
        c.ob(False, 'data stored earlier is not overwritten', op.where, str(e))
        return None
    except Unknown as e:
        c.ob(None, rule, op.where, str(e))
        return None
    if any(q[0] == 'old' for q in ps):
        c.ob(False, 'every byte of an entry is stored', op.where, 'bytes skipped')
        return None
    m = Match(op.ip, s, ps, op.where)
    return m


def sides(c, op, m, steps):
    for rule, f in steps:
        v, why = f()
        c.ob(v, rule, op.where, why)
        if v is not True:
            return False
    return True


def header_steps(op, m, s):
    n = op.num
    steps = [('an entry starts with its name', lambda: m.name(op.labels(s, op.nameref)))]
    if op.sec == 'Question':
        steps += [('the name is followed by the 16-bit type', lambda: m.int(n(s, op.args['ty']), 2)),
                  ('the type is followed by the 16-bit class', lambda: m.int(n(s, op.args['class']), 2))]
    else:
        ty = None
        r = call_one(op.c, op.ip, s, REC + 'Record::record_type', [mk('ref', op.recroot, ())])
        if len(r) == 1:
            ty = n(r[0][0], r[0][1])
        steps += [('the name is followed by the 16-bit type', lambda: m.int(ty, 2)),
                  ('the type is followed by the 16-bit class', lambda: m.int(n(s, op.args['class']), 2)),
                  ('the class is followed by the 32-bit TTL', lambda: m.int(n(s, op.args['ttl']), 4))]
    return steps


def rdlen_step(op, m, s, d1):
    def f():
        i = m.i
        if i + 2 > len(m.parts):
            return False, 'no length is written'
        if m.parts[i][0] != 'one':
            return False, 'no length is written: %s' % desc(m.parts[i:i + 2])
        start = addc(m.parts[i][1], 2)
        oc, oo, on = op.rep.content(op.ip, s, d1)
        end = add(oo, op.rep.get(op.ip, s, d1, op.rep.pos))
        return m.int(sub(end, start), 2)
    return ('the TTL is followed by the 16-bit length of the data', f)


def end_step(m):
    return ('an entry ends behind its last field', lambda: (m.i == len(m.parts), 'followed by %s' % desc(m.parts[m.i:])))


def ops(c, p, rep, rtypes=('A',)):
    out = []
    r = c.group(ENC + 'MessageEncoder::question', Op, c, p, rep, 'Question')
    out.append(r)
    for sec in SECT[1:]:
        for rt in rtypes:
            rt, cow = rt if isinstance(rt, tuple) else (rt, 0)
            out.append(c.group(ENC + 'MessageEncoder::' + ADD[sec], Op, c, p, rep, sec, rt, cow))
    return [o for o in out if o is not None]


def c11_encode(c, p):
    rep = c.group('MessageEncoder', Enc, c, p)
    if rep is None:
        return
    for op in ops(c, p, rep):
        c.group(op.where, c11_one, c, op)


def c11_one(c, op):
    done = 0
    for s, v in op.res:
        for s2, d1, tr in op.outcome(s):
            if tr:
                continue
            done += 1
            m = entry(c, op, s2, d1, 'an encoded entry has the layout of the RFC')
            if m is None:
                continue
            steps = header_steps(op, m, s2)
            if op.sec != 'Question':
                steps.append(rdlen_step(op, m, s2, d1))
            else:
                steps.append(end_step(m))
            sides(c, op, m, steps)
    c.ob(done > 0, 'an entry that fits is stored', op.where, '')


# ---- C05 ---------------------------------------------------------------------------------------

def c05(c):
    """The encoder's fields (cursor, truncation flag, counts) are identified by what finish() returns and writes into the header. For an
    arbitrary encoder within its invariant (12 <= cursor <= buffer length) every operation is evaluated for an entry with any name: the cursor stays in the buffer, a
    set flag stays set, and if the flag is clear afterwards every byte of the entry is stored behind the earlier data, which is left alone."""
    p = c.prog()
    c.group('MessageEncoder::new', c05_new, c, p)
    rep = c.group('MessageEncoder', Enc, c, p)
    if rep is None:
        return
    c.group('MessageEncoder::finish', c05_finish, c, p, rep)
    c.group('MessageEncoder::set_header', c05_header, c, p, rep)
    for sec, item in (('Question', 'answers'), ('Answer', 'authority'), ('Authority', 'additional')):
        c.group('MessageEncoder::' + item, c05_move, c, p, rep, sec, item)
    for op in ops(c, p, rep, ('A', 'PTR', 'TXT') if c.tier == 'quick' else RECORDS):
        c.group(op.where, c05_op, c, op)


def c05_new(c, p):
    b = fn(p, ENC + 'MessageEncoder::new')
    ip = c.interp(p, exact=1)
    args, res = ip.entry(b)
    c.account(ip)
    st0 = State()
    n = ip.slice_of(st0, args[0], None)[3]
    done = 0
    for s, v in res:
        c.ob(s.entails(addc(n, -12)), 'a buffer shorter than a header is refused', loc(b), 'accepted with %s' % show(n))
        done += 1
    for kind, stack, span, s in ip.panics:
        s2 = s.copy()
        c.ob(not s2.assume(ge0(addc(n, -12)), True), 'a buffer with room for a header is accepted', '%s, %s' % (loc(b), span), kind)
    c.ob(done > 0, 'a buffer with room for a header is accepted', loc(b), '')
    rep = c.group('MessageEncoder', Enc, c, p)
    if rep is None:
        return
    for s, v in res:
        good = s.entails_eq(rep.get(ip, s, v, rep.pos), I(12))
        if not good and any(x.op == 'phi' for x in subterms(rep.get(ip, s, v, rep.pos))):
            good = None
        c.ob(good, 'data starts behind the header', loc(b), 'cursor %s' % show(rep.get(ip, s, v, rep.pos)))
        c.ob(s.entails_eq(rep.get(ip, s, v, rep.trunc), I(0)), 'a new message is not truncated', loc(b), '')
        a1, a2 = ip.slice_of(s, getp(ip, s, v, rep.buf), None), ip.slice_of(s, args[0], None)
        c.ob(a1[0] == a2[0] and a1[1] == a2[1] and s.entails_eq(a1[2], a2[2]) and s.entails_eq(a1[3], a2[3]), 'the message is built in the given buffer', loc(b), '')


def c05_finish(c, p, rep):
    ip, d0, b = rep.finip, rep.fin0, rep.finb
    st0 = State()
    flag = rep.get(ip, st0, d0, rep.trunc)
    kinds = set()
    for s, v in rep.finres:
        if v.op != 'agg':
            c.ob(None, 'analysed', loc(b), show(v))
            continue
        for val in (0, 1):
            s2 = s.copy()
            if not s2.assume(eq0(addc(flag, -val)), True):
                continue
            kinds.add((val, v.a[1]))
            if v.a[1] == 0:
                c.ob(val == 0, 'finishing a truncated message fails', loc(b), 'returns %s' % show(v))
                c.ob(s2.entails_eq(v.a[2][0], rep.get(ip, st0, d0, rep.pos)), 'the length returned is the end of the data', loc(b), 'returns %s' % show(v))
            else:
                c.ob(val == 1, 'finishing succeeds if everything was stored', loc(b), 'returns %s' % show(v))
                e = v.a[2][0]
                en = p.types[e.ty]['v'] if e.ty is not None and p.types[e.ty]['k'] == 'enum' else []
                c.ob(e.op == 'agg' and e.a[1] is not None and en and en[e.a[1]]['n'] == 'Truncated', 'a truncated message is reported as such', loc(b), show(e))
            ct, off, n = rep.content(ip, s2, d0)
            w = s2.norm(ip.proj(s2, ct, ('i', addc(off, 2))))
            bits = bits_of(w)
            bit = s2.norm(frombits(bslice(bits, 1, 1))) if bits is not None else None
            c.ob(bit is not None and s2.entails_eq(bit, I(val)), 'the truncation bit is set exactly when data did not fit', loc(b), 'header byte 2 is %s' % show(w))
            header_only(c, ip, s2, ct, off, ip.slice_content(State(), getp(ip, State(), d0, rep.buf))[0], b)
    c.ob(kinds == {(0, 0), (1, 1)}, 'finishing reports whether everything fits', loc(b), '')


def header_only(c, ip, s, ct, off, base, b):
    """all writes lie in the first 12 bytes"""
    while ct is not base:
        if ct.op == 'wr':
            prev, o, n = ct.a[:3]
        elif ct.op == 'upd':
            prev, o, n = ct.a[0], ct.a[1], I(1)
        else:
            c.ob(None, 'only the header is written', loc(b), show(ct)[:80])
            return
        c.ob(s.entails(sub(addc(off, 12), add(o, n))), 'only the header is written', loc(b), 'bytes %s to %s' % (show(o), show(add(o, n))))
        ct = prev


def c05_header(c, p, rep):
    b = fn(p, ENC + 'MessageEncoder::set_header')
    ip = rep.ip(c)
    st = State()
    d0 = expand(ip, st, mk('sym', 'encH', ty=p.types[b['locals'][1]]['e']))
    rep.assume(ip, st, d0)
    root, ref = on_value(ip, st, d0, 'enc')
    h = mk('sym', 'header', ty=b['locals'][2])
    base = rep.content(ip, st, d0)[0]
    for s, v in run(ip, st.copy(), b, [ref, h], 'set_header'):
        d1 = ip.load(s, root, ())
        ct, off, n = rep.content(ip, s, d1)
        header_only(c, ip, s, ct, off, base, b)
        for path, t in rep.paths:
            c.ob(s.entails_eq(rep.get(ip, s, d1, path), rep.get(ip, st, d0, path)), 'setting the header changes nothing else', loc(b), '')
        bs = models.to_le(ip, s, h.ty, h)
        if bs is not None and len(bs) == 12:
            for k, x in enumerate(bs):
                y = s.norm(ip.proj(s, ct, ('i', addc(off, k))))
                c.ob(same_bits(s, x, y), 'the header set is the header stored', loc(b), 'byte %d is %s' % (k, show(y)))
    for kind, stack, span, s in ip.panics:
        c.ob(False, 'setting the header succeeds', '%s, %s' % (loc(b), span), kind)
    c.account(ip)


def c05_move(c, p, rep, sec, item):
    b = sect_fn(p, sec, item)
    ip = rep.ip(c)
    st = State()
    d0 = expand(ip, st, mk('sym', 'enc' + sec, ty=b['locals'][1]))
    rep.assume(ip, st, d0)
    base = rep.content(ip, st, d0)
    for s, v in run(ip, st.copy(), b, [d0], item):
        for path, t in rep.paths:
            x, y = rep.get(ip, s, v, path), rep.get(ip, st, d0, path)
            c.ob(s.entails_eq(x, y), 'moving to the next section changes nothing', loc(b), '%s becomes %s' % (show(y), show(x)))
        ct, off, n = rep.content(ip, s, v)
        c.ob(ct is base[0] and s.entails_eq(off, base[1]) or None, 'moving to the next section writes nothing but the header', loc(b), '')
    c.account(ip)


def c05_op(c, op):
    ip, rep = op.ip, op.rep
    oc, oo, on = rep.content(ip, op.st0, op.d0)
    p0, t0 = rep.get(ip, op.st0, op.d0, rep.pos), rep.get(ip, op.st0, op.d0, rep.trunc)
    done = 0
    for s, v in op.res:
        for s2, d1, tr in op.outcome(s):
            p1 = rep.get(ip, s2, d1, rep.pos)
            ct, off, n = rep.content(ip, s2, d1)
            inside = s2.entails(sub(n, p1)) or s2.entails(sub(on, p1))
            s3 = s2.copy()
            if not inside and any(x.op == 'phi' for x in subterms(p1)):
                inside = None
            c.ob(inside, 'the cursor stays in the buffer', op.where, 'cursor %s' % show(p1))
            if not tr:
                s3 = s2.copy()
                c.ob(not s3.assume(eq0(addc(t0, -1)), True), 'truncation is never forgotten', op.where, '')
                done += 1
                m = entry(c, op, s2, d1, 'an entry is stored behind the earlier ones')
                if m is not None:
                    c.ob(True, 'every byte of an entry is stored', op.where, '')
                    steps = header_steps(op, m, s2)
                    if op.sec != 'Question':
                        steps.append(rdlen_step(op, m, s2, d1))
                        steps += rdata_steps(op, m, s2)
                    steps.append(end_step(m))
                    sides(c, op, m, steps)
            else:
                try:
                    if not any(x.op == 'phi' for x in subterms(ct)):
                        written(ip, s2, ct, add(oo, p0), add(oo, p0), oc)
                    c.ob(True, 'data stored earlier is not overwritten', op.where, '')
                except Stray as e:
                    c.ob(False, 'data stored earlier is not overwritten', op.where, str(e))
                except Unknown:
                    pass
    c.ob(done > 0, 'an entry that fits is stored', op.where, '')


# ---- C06, encoder ------------------------------------------------------------------------------

def c06(c):
    """Encoder: every entry method, for an arbitrary encoder, adds one to its own section's count exactly when the entry was completely
    stored (the truncation flag is clear afterwards) and leaves the others alone; finish and drop write the four counts into their header fields whatever was there.
    Decoder: the counts of the header are used up one by one, per section, and a section ends early only after an error."""
    p = c.prog()
    rep = c.group('MessageEncoder', Enc, c, p)
    if rep is not None:
        c.group('MessageEncoder::finish', c06_finish, c, p, rep)
        c.group('MessageEncoder::new', c06_enew, c, p, rep)
        for op in ops(c, p, rep):
            c.group(op.where, c06_op, c, op)
        for sec, item in (('Question', 'answers'), ('Answer', 'authority'), ('Authority', 'additional')):
            c.group('MessageEncoder::' + item, c05_move, c, p, rep, sec, item)
    drep = c.group('MessageDecoder', decoding.Rep, c, p)
    if drep is not None:
        decoding.c06_decode(c, p, drep)


def c06_finish(c, p, rep):
    ip, d0, b = rep.finip, rep.fin0, rep.finb
    for s, v in rep.finres:
        ct, off, n = rep.content(ip, s, d0)
        for k, sec in enumerate(SECT):
            w = be(ip, s, ct, addc(off, 4 + 2 * k), 2)
            good = sec in rep.cnt and same_bits(s, w, getp(ip, s, d0, rep.cnt[sec]))
            c.ob(good, 'the header holds the number of entries of each section', '%s, %s' % (loc(b), sec), 'count is %s' % show(w))
    if len(rep.cnt) == 4:
        c.ob(len(set(rep.cnt.values())) == 4, 'each section has a count of its own', loc(b), '')


def c06_enew(c, p, rep):
    b = fn(p, ENC + 'MessageEncoder::new')
    ip = c.interp(p, exact=1)
    args, res = ip.entry(b)
    c.account(ip)
    for s, v in res:
        for sec in rep.cnt:
            x = rep.get(ip, s, v, rep.cnt[sec])
            c.ob(s.entails_eq(x, I(0)), 'a new message has no entries', '%s, %s' % (loc(b), sec), 'count is %s' % show(x))


def c06_op(c, op):
    ip, rep = op.ip, op.rep
    for s, v in op.res:
        for s2, d1, tr in op.outcome(s):
            for sec in rep.cnt:
                x, y = rep.get(ip, s2, d1, rep.cnt[sec]), rep.get(ip, op.st0, op.d0, rep.cnt[sec])
                if sec == op.sec and not tr:
                    c.ob(s2.entails_eq(x, addc(y, 1)), 'an entry stored is counted in its section', op.where, 'count %s becomes %s' % (show(y), show(x)))
                elif sec == op.sec:
                    c.ob(s2.entails_eq(x, y), 'an entry that did not fit is not counted', op.where, 'count %s becomes %s' % (show(y), show(x)))
                else:
                    c.ob(s2.entails_eq(x, y), 'an entry is not counted in another section', '%s, %s' % (op.where, sec), 'count %s becomes %s' % (show(y), show(x)))


# ---- C07 ---------------------------------------------------------------------------------------

RECORDS = ('A', 'AAAA', 'CNAME', 'MX', 'NS', 'PTR', 'TXT', 'SRV', 'SOA')
# (accessor, kind) in the order of RFC 1035 3.3/3.4, RFC 2782, RFC 3596
LAYOUT = {
    'A': [('addr', 4)], 'AAAA': [('addr', 16)], 'CNAME': [('cname', 'name')], 'MX': [('preference', 2), ('exchange', 'name')],
    'NS': [('nsdname', 'name')], 'PTR': [('ptrdname', 'name')], 'TXT': [('entries', 'strings')],
    'SRV': [('priority', 2), ('weight', 2), ('port', 2), ('target', 'name')],
    'SOA': [('mname', 'name'), ('rname', 'name'), ('serial', 4), ('refresh', 4), ('retry', 4), ('expire', 4), ('minimum_ttl', 4)],
}


def rdata_steps(op, m, s):
    return [('%s data: %s' % (op.rty, acc), lambda acc=acc, kind=kind: field(op, m, s, acc, kind)) for acc, kind in LAYOUT[op.rty]]


def field(op, m, s, acc, kind):
    ip = op.ip
    ref = mk('ref', op.recroot, (('f', ip.load(s, op.recroot, ()).a[1], 0, op.recty),))
    r = call_one(op.c, ip, s, REC + op.rty + '::' + acc, [ref])
    if len(r) != 1:
        return None, '%d outcomes of %s()' % (len(r), acc)
    s, v = r[0]
    if kind == 'name':
        return m.name(op.labels(s, v))
    if kind == 'strings':
        return char_strings(op, m, s, v)
    if op.rty in ('A', 'AAAA'):
        return m.raw(octets(ip, s, v), I(0), kind)
    return m.int(newtype_val(ip, s, v), kind)


def char_strings(op, m, s, v):
    """v: the iterator entries() returns"""
    ip = op.ip
    it = [x for x in leaves_it(v)]
    if len(it) != 1:
        return None, 'entries() is %s' % show(v)
    kind, root, path, i, n = it[0].a
    ct = ip.load(s, root, path)

    def inner(st, el, w):
        t = ip.p.types[el.ty] if el.ty is not None else {}
        if t.get('path') != 'std::borrow::Cow':
            return ip.slice_content(st, el)
        d = mk('discr', el)
        for var in (0, 1):
            if st.entails_eq(d, I(var)):
                x = ip.proj(st, el, ('f', var, 0, t['v'][var]['f'][0]['t']))
                if var == 0:
                    return ip.slice_content(st, x)
                x = ip.proj(st, x, ('v',))
                return x, I(0), ip.length(x)
        raise Unknown('string %s' % show(el))
    return m.strings((ct, i, sub(n, i)), inner)


def leaves_it(v, d=6):
    if isinstance(v, T):
        if v.op == 'iter' and v.a[0] == 'slice':
            yield v
        elif v.op in ('agg', 'iter') and d:
            for x in v.a:
                for y in (x if isinstance(x, tuple) else (x,)):
                    yield from leaves_it(y, d - 1)


def octets(ip, s, v):
    """the content of an address"""
    while v.op == 'agg' and len(v.a[2]) == 1:
        v = v.a[2][0]
    if v.op != 'seq' and v.ty is not None and ip.p.types[v.ty]['k'] == 'struct':
        v = ip.proj(s, v, ('f', None, 0, ip.p.fields(v.ty)[0]))
    return v


def c07(c):
    """Writing: add_answer() is evaluated for an arbitrary record of every type; the bytes behind the RDATA length must be the fields of
    the RFC's layout, as reported by the record's accessors, in order, in network byte order, and nothing else. Reading: as_enum() is evaluated for an arbitrary
    message and record of every type; in every successful outcome each accessor must return the bytes at its place in the same layout."""
    p = c.prog()
    rep = c.group('MessageEncoder', Enc, c, p)
    if rep is not None:
        for rt in RECORDS:
            for cow in ((0, 1) if any(k == 'name' for _, k in LAYOUT[rt]) else (0,)):
                op = c.group('%s, add_answer' % rt, Op, c, p, rep, 'Answer', rt, cow)
                if op is not None:
                    c.group(op.where, c07_write, c, op)
    for rt in RECORDS:
        c.group('decoding %s' % rt, c07_read, c, p, rt)


def c07_write(c, op):
    done = 0
    for s, v in op.res:
        for s2, d1, tr in op.outcome(s):
            if tr:
                continue
            done += 1
            m = entry(c, op, s2, d1, 'record data has the layout of its RFC')
            if m is not None:
                sides(c, op, m, header_steps(op, m, s2)[:-1] + [('class and TTL', lambda: m.int(newtype_val(op.ip, s2, op.args['ttl']), 4)), rdlen_step(op, m, s2, d1)] + rdata_steps(op, m, s2) + [end_step(m)])
    c.ob(done > 0, 'a record that fits is stored', op.where, '')


def complete_data(c, ip, s, rt, ct, off, n, where, v):
    """an error although the data may be exactly the fields of the type"""
    rule = 'complete data of every type is decoded'
    evs = decoding.names_in(events(s))
    if any(e[2] is None for e in evs):
        return          # a name that is not well-formed
    cur = off
    unread = False
    for acc, kind in LAYOUT[rt]:
        if kind == 'name':
            ev = [e for e in evs if s.entails_eq(add(ip.slice_content(s, e[4])[1], e[1]), cur)]
            if unread or not ev:
                unread = True
                cur = addc(cur, 1)
            else:
                cur = add(ip.slice_content(s, ev[0][4])[1], ev[0][3])
        elif kind == 'strings':
            unread = True
            cur = addc(cur, 1)
        else:
            cur = addc(cur, kind)
    q = s.copy()
    left = sub(add(off, n), cur)
    ok = not q.assume(ge0(left) if unread else eq0(left), True)
    if not ok and any(k == 'strings' for _, k in LAYOUT[rt]):
        # some string must be cut off: its length byte is the one looked at
        at = {s.norm(t.a[1]): t for t in dep_terms(s) if t.op == 'elem' and t.a[0] is ct}
        over = [s.entails(sub(add(x, b), add(off, n))) for x, b in at.items()]
        fits = [s.copy().assume(ge0(sub(add(off, n), addc(add(x, b), 1))), True) for x, b in at.items()]
        ok = True if any(over) else False if len(at) == 1 and all(fits) else None
    Soft(c, ip, s).ob(ok, rule, where, 'fails with %s' % show(v)[:60])


def c07_read(c, p, rt):
    import names
    nums = wire.TYPES[rt]
    b = fn(p, PK + 'decoder::ResourceRecord::as_enum')
    ip = c.interp(p, exact=1)
    wire.name_summary(ip, p, True)
    ip.struct_inv[decoding.READER] = decoding.reader_inv(p)
    a0 = mk('sym', 'rr' + rt, ty=b['locals'][1])
    st = State()
    ip.deref(st, a0, p.types[a0.ty]['e'])
    rr = ip.load(st, ('S', a0), ())
    v = rr
    for e in wire.type_field(p, rr.ty):
        v = ip.proj(st, v, e)
    st.set_const(v, nums)
    (s0, rd), = call_one(c, ip, st, PK + 'decoder::ResourceRecord::rdata', [a0])
    ct, off, n = ip.slice_content(s0, rd)
    res = run(ip, st, b, [a0], 'as_enum')
    c.account(ip)
    where = '%s, %s' % (loc(b), rt)
    oks = 0
    for s, v in res:
        if v.op != 'agg' or v.a[1] is None or (v.a[1] == 1 and v.a[2][0].op != 'agg'):
            c.ob(None, 'analysed', where, show(v))
            continue
        if v.a[1] == 0:
            c.ob(False, 'every supported type is decoded', where, 'returns %s' % show(v))
            continue
        if v.a[2][0].a[1] == 1:
            complete_data(c, ip, s, rt, ct, off, n, where, v)
            continue
        oks += 1
        rec = v.a[2][0].a[2][0]
        root, ref = on_value(ip, s, rec, 'got')
        if rec.op != 'agg' or p.types[rec.ty]['v'][rec.a[1]]['n'] != rt:
            c.ob(None if rec.op != 'agg' else False, 'a record is decoded as its own type', where, show(rec))
            continue
        vt = p.types[rec.ty]['v'][rec.a[1]]['f'][0]['t']
        fref = mk('ref', root, (('f', rec.a[1], 0, vt),))
        cur = off
        evs = [e for e in decoding.names_in(events(s)) if e[2] is not None]
        for acc, kind in LAYOUT[rt]:
            r = call_one(c, ip, s, REC + rt + '::' + acc, [fref])
            if len(r) != 1:
                c.ob(None, 'analysed', where, '%d outcomes of %s()' % (len(r), acc))
                break
            s2, x = r[0]
            rule = 'reading %s: %s() is the field at its place' % (rt, acc)
            if kind == 'name':
                pl = ip.deref(s2, x, None)
                val = ip.load(s2, pl.root, pl.path)
                ev = [e for e in evs if e[2] is val]
                if len(ev) != 1:
                    c.ob(None if not val.op == 'ret' else False, rule, where, 'is %s' % show(val))
                    break
                bc, bo, bn = ip.slice_content(s2, ev[0][4])
                if not c.ob(bc is ct and s2.entails_eq(add(bo, ev[0][1]), cur), rule, where, 'is the name at %s' % show(add(bo, ev[0][1]))):
                    break
                cur = add(bo, ev[0][3])
            elif kind == 'strings':
                c.group(where, read_strings, c, ip, s2, x, ct, cur, add(off, n), where)
            elif rt in ('A', 'AAAA'):
                o = octets(ip, s2, x)
                bad = [k for k in range(kind) if not same_bits(s2, ip.proj(s2, o, ('i', I(k))), ip.proj(s2, ct, ('i', addc(cur, k))))]
                c.ob(not bad, rule, where, 'octet %s is %s' % (bad[:1], show(ip.proj(s2, o, ('i', I(bad[0])))) if bad else ''))
                cur = addc(cur, kind)
            else:
                x = newtype_val(ip, s2, x)
                good = same_bits(s2, x, be(ip, s2, ct, cur, kind))
                c.ob(good, rule, where, 'is %s' % show(x))
                cur = addc(cur, kind)
    c.ob(oks > 0, 'every supported type is decoded', where, 'never succeeds')


def read_strings(c, ip, s, it, ct, start, end, where):
    rule = 'reading TXT: a character string is a length byte and that many bytes'
    its = list(leaves_it(it))
    if len(its) != 1:
        raise Unknown('entries() is %s' % show(it))
    kind, root, path, i, n = its[0].a
    vec = ip.load(s, root, path)
    seq = sequence(ip, s, vec)
    if not seq:
        c.ob(True, rule, where, 'no strings')
        return
    if len(seq) != 1 or seq[0][0] != 'each':
        raise Unknown('the strings are %s' % [q[0] for q in seq])
    each = seq[0][1]
    good = 0
    for r, el in each.recs:
        if el is None:
            c.ob(None, rule, where, 'an iteration adds no string')
            continue
        while el.op == 'agg':
            el = el.a[2][0]
        bc, bo, bn = ip.slice_content(r.back, el)
        hs = [(k, path, t) for k, v in r.head.mem.items() for path, t in decoding.leaves(v) if t.op == 'phi' and t.lo is not None and k in r.back.mem]
        found = None
        for k, path, t in hs:
            y = decoding.at_strip(ip, r.back, k, decoding.strip(path))
            d = r.back.norm(sub(bo, t))
            if y is not None and not any(z is t for z in subterms(d)) and y is not t:
                found = (k, path, t, y, d)
        if found is None or bc is not ct:
            c.ob(None if bc is ct else False, rule, where, show(el))
            continue
        k, path, t, y, d = found
        # position of the string = base + cursor + 1, where base + initial cursor = start
        for s0 in ip.loop_init.get(each.marker, []):
            if ip.sshape(s0) != r.shp:
                continue
            x0 = s0.norm(walk(ip, s0, mem(ip, s0, k), [(e[0], None) + tuple(e[2:]) if e[0] == 'f' else e for e in path]))
            c.ob(x0 is not None and s0.entails_eq(add(x0, d), addc(start, 1)) or (None if x0 is None else False), 'reading TXT: the first string starts where the data starts', where, '')
        lb = r.back.norm(ip.proj(r.back, ct, ('i', addc(bo, -1))))
        c.ob(r.back.entails_eq(bn, lb), rule, where, '%s bytes long, the length byte is %s' % (show(bn), show(lb)))
        c.ob(r.back.entails_eq(y, add(addc(t, 1), bn)), 'reading TXT: each string starts where the previous one ends', where, 'cursor %s becomes %s' % (show(t), show(y)))
        if s.entails_eq(sub(add(t, d), I(1)), end):
            good += 1
        else:
            fin = [tt for tt in state_terms(s) if tt is t]
            c.ob(None, 'reading TXT: strings are read up to the end of the data', where, '')
    c.ob(True if each.recs else None, rule, where, '')


PROPS = {'C07': c07, 'C05': c05, 'C06': c06}
