"""The decoder: entries (C11), record data (C10, C07), counts (C06), errors (C12), repeatability (C32)."""
from base import *
from util import *
import wire
from wire import PK, find_name_reader, name_summary

DEC = PK + 'decoder::'
SECT = ['Question', 'Answer', 'Authority', 'Additional']
READER = DEC + 'Reader'
_n = [0]


def uniq(name):
    _n[0] += 1
    return '%s.%d' % (name, _n[0])


def reader_inv(p):
    def f(ip, t):
        ty = t.ty
        bufp, posp = wire.reader_fields(p, ty)
        st = State()
        n = ip.slice_of(st, wire.getp(ip, st, t, bufp), None)[3]
        return [sub(n, wire.getp(ip, st, t, posp))]
    return f


def run(ip, st, b, args, name):
    return ip.entry(b, args, st, uniq(name))[1]


def call_one(c, ip, st, path, args, pick=None):
    """call a loop-free accessor: [(state, value)]"""
    b = fn(ip.p, path, pick)
    return run(ip, st.copy(), b, args, path)


def on_value(ip, st, v, name='val'):
    """put a value somewhere and return (root, reference to it)"""
    root = ('T', uniq(name), 0, 'obs')
    st.mem[root] = v
    return root, mk('ref', root, ())


def sect_fn(p, s, item):
    def pick(b):
        return ('section::' + s) in (b.get('self') or '') or ('section::' + s + '>') in b['path']
    return fn(p, DEC + 'MessageDecoder::' + item, pick)


class Rep:
    """how the decoder is represented, read off from what new() builds and what next() reads"""
    def __init__(self, c, p):
        self.c, self.p = c, p
        ip = self.ip(c)
        b = fn(p, DEC + 'MessageDecoder::new')
        self.newb = b
        args, res = ip.entry(b)
        c.account(ip)
        self.newres = (args, res, ip)
        self.cnt = {}
        self.cursor = self.buf = self.header = None
        oks = [(s, v.a[2][0]) for s, v in res if v.op == 'agg' and v.a[1] == 0]
        if not oks:
            raise Unknown('no successful outcome of MessageDecoder::new')
        s, d = oks[0]
        self.new = (s, d)
        rty = [i for i, t in enumerate(p.types) if t.get('path') == READER and t['k'] == 'struct']
        leaves = list(self.leaves(s, d, ()))
        ct, off, n = ip.slice_content(s, args[0])
        for k, sec in enumerate(SECT):
            want = be(ip, s, ct, addc(off, 4 + 2 * k), 2)
            ps = [path for path, v in leaves if not isinstance(v, str) and same_bits(s, v, want)]
            if len(ps) >= 1:
                self.cnt[sec] = ps[0]
        for path, v in self.typed(s, d, ()):
            if p.types[v.ty].get('path') == READER if v.ty is not None else False:
                bp, pp = wire.reader_fields(p, v.ty)
                self.buf, self.cursor = path + bp, path + pp
            if v.ty is not None and p.types[v.ty].get('path') == PK + 'Header':
                self.header = path
        if self.cursor is None:
            raise Unknown('the cursor of MessageDecoder')
        # the error flag: a component that a failing next() sets to a constant differing from the initial one
        self.flag = None
        for sec in SECT:
            ip2 = self.ip(c)
            a2, r2 = ip2.entry(sect_fn(p, sec, 'next'))
            for s2, v2 in r2:
                if not is_some_err(v2):
                    continue
                old, new = ip2.default(s2, ('S', a2[0])), ip2.load(s2, ('S', a2[0]), ())
                for path, x in self.leaves(s2, new, ()):
                    if x.op == 'int' and path not in self.cnt.values() and path != self.cursor:
                        i0 = s.norm(wire.getp(ip, s, d, path))
                        if i0.op == 'int' and i0 is not x:
                            self.flag = (path, i0, x)
        return

    def ip(self, c, **o):
        ip = c.interp(self.p, exact=1, **o)
        name_summary(ip, self.p, True)
        ip.struct_inv[READER] = reader_inv(self.p)
        return ip

    def leaves(self, s, v, path, d=7):
        """(path, scalar) for every scalar inside an aggregate"""
        if v.op == 'agg':
            for i, x in enumerate(v.a[2]):
                if isinstance(x, T):
                    yield from self.leaves(s, x, path + (('f', v.a[1] if v.a[1] is not None else None, i, None),), d - 1)
        else:
            yield path, s.norm(v)

    def typed(self, s, v, path, d=6):
        yield path, v
        if v.op == 'agg' and d:
            for i, x in enumerate(v.a[2]):
                if isinstance(x, T):
                    yield from self.typed(s, x, path + (('f', v.a[1] if v.a[1] is not None else None, i, None),), d - 1)

    def get(self, ip, s, d, path):
        return s.norm(wire.getp(ip, s, d, path))


def be(ip, st, ct, at, n):
    """big-endian integer of n bytes of a content"""
    return frombits([x for k in reversed(range(n)) for x in bslice(bits_of(st.norm(ip.proj(st, ct, ('i', addc(at, k))))), 0, 8)])


def is_some_err(v):
    return v.op == 'agg' and v.a[1] == 1 and v.a[2][0].op == 'agg' and v.a[2][0].a[1] == 1


def is_some_ok(v):
    return v.op == 'agg' and v.a[1] == 1 and v.a[2][0].op == 'agg' and v.a[2][0].a[1] == 0


def is_none(v):
    return v.op == 'agg' and v.a[1] == 0


def names_in(evs):
    return [e.a[1] for e in evs if e.op == 'ev' and e.a[1][0] == 'name']


class Step:
    """one outcome of reading an entry"""


def entry_end(ip, s, ct, base, sec, name_end):
    if sec == 'Question':
        return addc(name_end, 4), None
    n = be(ip, s, ct, add(base, addc(name_end, 8)), 2)
    return add(addc(name_end, 10), n), n


def next_outcomes(c, rep, p, sec, how):
    """outcomes of reading the next entry of a section of an arbitrary decoder: directly or through the iterator.
    -> ip, body, [(state, value, decoder before, decoder after)]"""
    ip = rep.ip(c)
    b = sect_fn(p, sec, 'next')
    dty = p.types[b['locals'][1]]['e']
    d0 = mk('deref', mk('sym', 'dec' + sec), ty=dty)
    root = ('S', mk('sym', 'dec' + sec))
    st = State()
    st.mem[root] = d0
    ref = mk('ref', root, ())
    out = []
    if how == 'next':
        out = [(s, v) for s, v in run(ip, st, b, [ref], 'next')]
    else:
        ib = sect_fn(p, sec, 'iter')
        for s, it in run(ip, st, ib, [ref], 'iter'):
            ity = ib['locals'][0]
            r2, rf = on_value(ip, s, it, 'it')
            name = npath(p.ts(ity))
            nb = [x for x in p.d['bodies'] if x['body'] is not None and x.get('item') == 'next' and x['argc'] == 1 and p.types[x['locals'][1]]['k'] == 'ref'
                  and p.ts(p.types[x['locals'][1]]['e']) == p.ts(ity)]
            if not nb:
                nb = [x for x in p.d['bodies'] if x['body'] is not None and x.get('item') == 'next' and x['argc'] == 1 and p.types[x['locals'][1]]['k'] == 'ref'
                      and npath(p.ts(p.types[x['locals'][1]]['e'])) == name and (x['id'] not in p.roots or sec == 'Question')
                      and (sec == 'Question' or ('section::' + sec) in p.ts(p.types[x['locals'][1]]['e']))]
            if not nb:
                raise NoAnchor('Iterator::next for ' + p.ts(ity))
            b = nb[0]
            out += [(s2, v) for s2, v in run(ip, s, b, [rf], 'itnext')]
    c.account(ip)
    return ip, b, root, d0, out


def each_next(c, p, rep, f):
    for sec in SECT:
        for how in ('next', 'iter'):
            c.group('%s section, %s' % (sec, how), f, c, p, rep, sec, how)


def newtype_val(ip, s, v):
    while v.op == 'agg' and len(v.a[2]) == 1:
        v = v.a[2][0]
    if v.op != 'agg' and v.ty is not None and ip.p.types[v.ty]['k'] == 'struct':
        v = ip.proj(s, v, ('f', None, 0, ip.p.fields(v.ty)[0]))
    return s.norm(v)


# ---- C11 --------------------------------------------------------------------------------------
def c11(c):
    """Reading an entry of each section is evaluated for an arbitrary message and cursor (the name reader, whose contract is C27, as one
    step); every accessor of a decoded entry must yield exactly the big-endian field at its RFC offset behind the name. The encoder's side is decided with the same
    layout."""
    p = c.prog()
    rep = c.group('MessageDecoder', Rep, c, p)
    if rep is not None:
        c.group('MessageDecoder::new', c11_new, c, p, rep)
        each_next(c, p, rep, c11_next)
    try:
        import encoding
    except ImportError:
        return
    encoding.c11_encode(c, p)


def c11_new(c, p, rep):
    args, res, ip = rep.newres
    for s, v in res:
        if v.op == 'agg' and v.a[1] == 0:
            d = v.a[2][0]
            ct, off, n = ip.slice_content(s, args[0])
            rc, ro, rn = ip.slice_content(s, rep.get(ip, s, d, rep.buf))
            cur = rep.get(ip, s, d, rep.cursor)
            c.ob(rc is ct and s.entails_eq(add(ro, cur), addc(off, 12)) and s.entails_eq(add(ro, rn), add(off, n)), 'decoding starts behind the header', loc(rep.newb), 'at %s' % show(cur))
            if rep.header is None:
                c.ob(None, 'the header is the first 12 bytes', loc(rep.newb), '')
            else:
                h = wire.getp(ip, s, d, rep.header)
                bs = models.to_le(ip, s, h.ty, h)
                good = all(same_bits(s, x, ip.proj(s, ct, ('i', addc(off, k)))) for k, x in enumerate(bs))
                c.ob(good and len(bs) == 12, 'the header is the first 12 bytes', loc(rep.newb), '')
        else:
            ct, off, n = ip.slice_content(s, args[0])
            s2 = s.copy()
            c.ob(not s2.assume(ge0(addc(n, -12)), True), 'a message with a whole header is accepted', loc(rep.newb), 'refused')


def c11_next(c, p, rep, sec, how):
    ip, b, root, d0, outs = next_outcomes(c, rep, p, sec, how)
    st0 = State()
    oks = 0
    for s, v in outs:
        if not is_some_ok(v):
            continue
        oks += 1
        ev = names_in(events(s))
        if len(ev) != 1 or ev[0][2] is None:
            c.ob(None if len(ev) > 1 else False, 'an entry starts with one domain name', loc(b), '%d names read' % len(ev))
            continue
        _, start, nm, end, buf = ev[0]
        c.ob(s.entails_eq(start, rep.get(ip, st0, d0, rep.cursor)), 'an entry starts at the cursor', loc(b), 'name read at %s' % show(start))
        ct, off, n = ip.slice_content(s, rep.get(ip, st0, d0, rep.buf))
        e = v.a[2][0].a[2][0]
        r, ref = on_value(ip, s, e, 'entry')

        def acc(item, want, what, post=newtype_val):
            path = DEC + ('Question::' if sec == 'Question' else 'ResourceRecord::') + item
            for s2, x in call_one(c, ip, s, path, [ref]):
                good = same_bits(s2, post(ip, s2, x), want(s2)) if what != 'name' else deref_is(ip, s2, x, nm)
                c.ob(good, 'a decoded %s is the field at its place' % ('question' if sec == 'Question' else 'record'), '%s, %s()' % (loc(b), item), 'is %s, should be %s' % (show(post(ip, s2, x)), show(want(s2)) if what != 'name' else 'the name'))
        f = lambda k, w: (lambda s2: be(ip, s2, ct, add(off, addc(end, k)), w))
        top = lambda s2: frombits(bslice(bits_of(be(ip, s2, ct, add(off, addc(end, 2)), 2)), 15, 1))
        low = lambda s2: frombits(bslice(bits_of(be(ip, s2, ct, add(off, addc(end, 2)), 2)), 0, 15))
        if sec == 'Question':
            acc('qname', None, 'name', lambda ip, s2, x: x)
            acc('qtype', f(0, 2), 'type')
            acc('qclass', low, 'class')
        else:
            acc('name', None, 'name', lambda ip, s2, x: x)
            acc('type_', f(0, 2), 'type')
            acc('class', low, 'class')
            acc('ttl', f(4, 4), 'ttl')
            for s2, x in call_one(c, ip, s, DEC + 'ResourceRecord::cache_flush', [ref]):
                t = top(s2)
                bad = spec_bool(s2, x, [([(eq0(t), False)], True), ([(eq0(t), True)], False)])
                c.ob(not bad, 'a decoded record is the field at its place', '%s, cache_flush()' % loc(b), 'is %s' % show(x))
            rdata_check(c, ip, s, ct, off, end, ref, b)
    c.ob(oks > 0, 'entries can be read', loc(b), '')


def rdata_check(c, ip, s, ct, off, end, ref, b):
    for s2, x in call_one(c, ip, s, DEC + 'ResourceRecord::rdata', [ref]):
        rc, ro, rn = ip.slice_content(s2, x)
        good = rc is ct and s2.entails_eq(ro, add(off, addc(end, 10))) and s2.entails_eq(rn, be(ip, s2, ct, add(off, addc(end, 8)), 2))
        c.ob(good, 'the data of a record is the declared number of bytes behind its header', '%s, rdata()' % loc(b), 'is %s' % show(x))


def deref_is(ip, st, x, want):
    pl = ip.deref(st, x, None)
    v = ip.load(st, pl.root, pl.path)
    return v is want


# ---- C10 --------------------------------------------------------------------------------------
def c10(c):
    """The decoder is advanced over an arbitrary record: the cursor must end at the end given by the length field in every outcome that
    yields the record, that end must lie in the message, and rdata() must be exactly the declared bytes. Decoding the data of that very record must not depend on
    any byte at or behind that end: neither a branch condition nor a result may contain one, and names are read from a buffer cut off there."""
    p = c.prog()
    rep = c.group('MessageDecoder', Rep, c, p)
    if rep is None:
        return
    each_next(c, p, rep, c10_next)


def c10_next(c, p, rep, sec, how):
    if sec == 'Question':
        return
    ip, b, root, d0, outs = next_outcomes(c, rep, p, sec, how)
    st0 = State()
    oks = 0
    for s, v in outs:
        if not is_some_ok(v):
            continue
        oks += 1
        ev = names_in(events(s))
        if len(ev) != 1 or ev[0][2] is None:
            c.ob(None, 'analysed', loc(b), '%d names read' % len(ev))
            continue
        _, start, nm, end, buf = ev[0]
        ct, off, n = ip.slice_content(s, rep.get(ip, st0, d0, rep.buf))
        stop, ln = entry_end(ip, s, ct, off, sec, end)
        d1 = ip.load(s, root, ())
        c.ob(s.entails_eq(rep.get(ip, s, d1, rep.cursor), stop), 'the next entry starts at the declared end of the data', loc(b), 'cursor %s' % show(rep.get(ip, s, d1, rep.cursor)))
        rc, ro, rn = ip.slice_content(s, rep.get(ip, s, d1, rep.buf))
        c.ob(rc is ct and s.entails_eq(ro, off) and s.entails_eq(rn, n), 'the next entry is read from the same message', loc(b), '')
        c.ob(s.entails(sub(n, stop)), 'a record reaching beyond the message is an error', loc(b), 'accepted although %s bytes long' % show(ln))
        e = v.a[2][0].a[2][0]
        r, ref = on_value(ip, s, e, 'entry')
        rdata_check(c, ip, s, ct, off, end, ref, b)
        if how != 'next':
            continue
        before = dict(s.mem)
        eb = fn(p, DEC + 'ResourceRecord::as_enum')
        nev = len(events(s))
        lim = add(off, stop)
        n_terms = 0
        for s2, x in run(ip, s.copy(), eb, [ref], 'as_enum'):
            bad = None
            for t in dep_terms(s2) | subterms(x):
                if t.op == 'elem' and t.a[0] is ct:
                    n_terms += 1
                    if not s2.entails(addc(sub(lim, t.a[1]), -1)) and depends_on(s2, x, t):
                        bad = t
            c.ob(confined(s2, lim, bad), 'decoding record data depends only on bytes before its declared end', loc(eb), 'depends on %s' % show(bad) if bad is not None else '')
            for evn in names_in(events(s2)[nev:]):
                if evn[2] is None:
                    continue
                bc, bo, bn = ip.slice_content(s2, evn[4])
                good = bc is ct and s2.entails(sub(lim, add(bo, bn)))
                c.ob(good, 'names in record data are read only up to its declared end', loc(eb), 'the name may extend to %s' % show(add(bo, bn)))
            # the same decoder can go on unharmed
            d2 = ip.load(s2, root, ())
            c.ob(s2.entails_eq(rep.get(ip, s2, d2, rep.cursor), stop), 'decoding record data does not move the decoder', loc(eb), '')
        for kind, stack, span, sx in ip.panics:
            pass
        c.ob(n_terms > 0, 'bytes read by record decoding found', loc(eb), '%d' % n_terms)
    c.ob(oks > 0, 'records can be read', loc(b), '')


def confined(s, lim, bad):
    if bad is None:
        return True
    # provably possible: the byte is at or behind the end in a loop-free state
    if any(t.op == 'phi' for t in subterms(bad)):
        return None
    return False


# ---- C06 (decoding) and C12 --------------------------------------------------------------------
def noflag(rep):
    return rep.flag is None


def c06_decode(c, p, rep):
    c.group('MessageDecoder::new', c06_new, c, p, rep)
    each_next(c, p, rep, c06_next)
    for a, bs in enumerate((['answers', 'authority', 'additional'], ['authority', 'additional'], ['additional'])):
        for item in bs:
            c.group('%s section, %s' % (SECT[a], item), section_change, c, p, rep, SECT[a], item, False)


def c06_new(c, p, rep):
    args, res, ip = rep.newres
    for s, v in res:
        if v.op == 'agg' and v.a[1] == 0:
            for sec in SECT:
                c.ob(True if sec in rep.cnt else None, 'each section has its own count from the header', loc(rep.newb), sec)
    c.ob(len(set(rep.cnt.values())) == len(rep.cnt), 'each section has its own count from the header', loc(rep.newb), '')


def c06_next(c, p, rep, sec, how):
    if sec not in rep.cnt or rep.flag is None:
        raise Unknown('representation of the decoder')
    ip, b, root, d0, outs = next_outcomes(c, rep, p, sec, how)
    st0 = State()
    fp, f0, f1 = rep.flag
    g = lambda s, d, path: rep.get(ip, s, d, path)
    for s, v in outs:
        d1 = ip.load(s, root, ())
        for o in SECT:
            if o != sec and o in rep.cnt:
                c.ob(s.entails_eq(g(s, d1, rep.cnt[o]), g(st0, d0, rep.cnt[o])), 'reading an entry leaves the other sections\' counts alone', '%s, count of %s' % (loc(b), o), '')
        cn0, cn1 = g(st0, d0, rep.cnt[sec]), g(s, d1, rep.cnt[sec])
        if is_some_ok(v):
            c.ob(s.entails(addc(cn0, -1)) and s.entails_eq(cn1, addc(cn0, -1)), 'each entry produced uses up one of its section\'s declared count', '%s (%s)' % (loc(b), sec), 'count %s becomes %s' % (show(cn0), show(cn1)))
            c.ob(s.entails_eq(g(s, d1, fp), f0), 'an entry is only produced while no error has been reported', '%s (%s)' % (loc(b), sec), '')
        elif is_none(v):
            s2 = s.copy()
            feas = s2.assume(ge0(addc(cn0, -1)), True) and s2.assume(eq0(sub(asint(g(st0, d0, fp)), asint(f0))), True)
            c.ob(not feas, 'a section ends early only after an error', '%s (%s)' % (loc(b), sec), '')
        elif not is_some_err(v):
            c.ob(None, 'analysed', loc(b), show(v))


def section_change(c, p, rep, sec, item, errors):
    """answers()/authority()/additional(): what remains of skipped sections is read, errors in them are reported"""
    if len(rep.cnt) < 4 or rep.flag is None:
        raise Unknown('representation of the decoder')
    ip = rep.ip(c)
    b = sect_fn(p, sec, item)
    st = State()
    dty = b['locals'][1]
    d0 = mk('sym', 'dec', ty=dty)
    res = run(ip, st, b, [d0], item)
    c.account(ip)
    fp, f0, f1 = rep.flag
    g = lambda s, d, path: rep.get(ip, s, d, path)
    target = {'answers': 1, 'authority': 2, 'additional': 3}[item]
    skipped = SECT[SECT.index(sec):target]
    st0 = State()
    oks = 0
    for s, v in res:
        if v.op != 'agg':
            c.ob(None, 'analysed', loc(b), show(v))
            continue
        if v.a[1] == 1:
            continue
        oks += 1
        d1 = v.a[2][0]
        where = '%s (%s)' % (loc(b), sec)
        for o in SECT:
            if o not in skipped:
                c.ob(weak(s, s.entails_eq(g(s, d1, rep.cnt[o]), g(st0, d0, rep.cnt[o])), g(s, d1, rep.cnt[o])), 'moving on leaves the counts of later sections alone', '%s, count of %s' % (where, o), '')
        s2 = s.copy()
        if not s2.assume(eq0(sub(asint(g(st0, d0, fp)), asint(f0))), True):
            continue
        for o in skipped:
            c.ob(weak(s2, s2.entails_eq(g(s2, d1, rep.cnt[o]), I(0)), g(s2, d1, rep.cnt[o])), 'a section is left only when all its entries were read', '%s, entries of %s' % (where, o), 'remaining %s' % show(g(s2, d1, rep.cnt[o])))
        fl = g(s2, d1, fp)
        c.ob(weak(s2, s2.entails_eq(asint(fl), asint(f0)), fl), 'moving on succeeds only if every entry skipped was well-formed', where, 'error flag %s' % show(fl))
        if rep.header is not None:
            h0, h1 = wire.getp(ip, st0, d0, rep.header), wire.getp(ip, s2, d1, rep.header)
            c.ob(same_val(ip, s2, h0, h1), 'moving on keeps the header', where, show(h1))
        rc, ro, rn = ip.slice_content(s, g(s2, d1, rep.buf))
        oc, oo, on = ip.slice_content(s, g(st0, d0, rep.buf))
        c.ob(rc is oc and s2.entails_eq(ro, oo) and s2.entails_eq(rn, on), 'moving on keeps the message', where, '')
        cur = g(s2, d1, rep.cursor)
        ends = []
        for recs in ip.loops.values():
            for r in recs:
                for e in names_in(r.evs):
                    if e[2] is not None:
                        ends += [entry_end(ip, s2, oc, oo, o, e[3])[0] for o in skipped]
        c.ob(skip_end(ip, s2, cur, g(st0, d0, rep.cursor), ends, lambda x, e: [entry_end(ip, x, oc, oo, o, e)[0] for o in skipped]), 'the next section starts where the skipped entries end', where, 'cursor %s' % show(cur))
    c.ob(oks > 0, 'the next section can be reached', loc(b), '')
    # every iteration that goes on decoded its entry and stopped behind it
    for m, recs in ip.loops.items():
        for r in recs:
            ev = names_in(r.evs)
            for e in ev:
                c.ob(e[2] is not None, 'moving on stops at a malformed entry', '%s (%s)' % (loc(b), sec), 'an iteration goes on after an error')


def skip_end(ip, s, cur, start, ends, loc_end=None, d=4):
    """the cursor after skipping: the start, the end of an entry just read, or what a loop over entries leaves"""
    if s.entails_eq(cur, start) or any(s.entails_eq(cur, e) for e in ends):
        return True
    if cur.op != 'phi' or d == 0 or loc_end is None:
        return None if any(x.op == 'phi' for x in subterms(cur)) else False
    for m, recs in ip.loops.items():
        if not (isinstance(m, T) and m.op == 'loop'):
            continue
        for r0 in recs:
            for k, v in r0.head.mem.items():
                path = find_path(v, cur)
                if path is None:
                    continue
                at_ = lambda x: x.norm(walk(ip, x, x.mem[k] if k in x.mem else ip.default(x, k), path))
                if any(at_(s0) is cur for s0 in ip.loop_init.get(m, [])):
                    break
                verdict = True
                for r in recs:
                    h = at_(r.head)
                    y = at_(r.back)
                    if y is h:
                        continue
                    ok = False
                    for e in names_in(r.evs):
                        if e[2] is not None and r.back.entails_eq(e[1], h):
                            if any(r.back.entails_eq(y, x) for x in loc_end(r.back, e[3])):
                                ok = True
                            elif ok is False and r.back.norm(sub(y, e[3])).op == 'int':
                                return False
                    if not ok:
                        verdict = None
                for s0 in ip.loop_init.get(m, []):
                    v0 = skip_end(ip, s0, at_(s0), start, ends, loc_end, d - 1)
                    if v0 is not True:
                        verdict = v0 if verdict is not False else False
                return verdict
    return None


def weak(s, ok, t):
    """a comparison that could not be proved is a violation only when no loop summary is involved"""
    if ok:
        return True
    return None if any(x.op == 'phi' for x in subterms(t)) else False


def same_val(ip, s, a, b):
    if a is b:
        return True
    if a.op == 'agg' or b.op == 'agg':
        ty = a.ty if a.ty is not None else b.ty
        fa = [ip.proj(s, a, ('f', None, i, f)) for i, f in enumerate(ip.p.fields(ty))]
        fb = [ip.proj(s, b, ('f', None, i, f)) for i, f in enumerate(ip.p.fields(ty))]
        return all(same_val(ip, s, x, y) for x, y in zip(fa, fb))
    return s.norm(a) is s.norm(b) or s.entails_eq(a, b)


def c12(c):
    """Every outcome of reading an entry, directly and through the iterator, is enumerated for an arbitrary decoder state: 'no more
    entries' needs an exhausted count or an earlier error, an error makes every later read (in this section, through the iterator and after moving on) return
    nothing, and moving to a later section succeeds only when every entry skipped was decoded."""
    p = c.prog()
    rep = c.group('MessageDecoder', Rep, c, p)
    if rep is None:
        return
    each_next(c, p, rep, c06_next)
    each_next(c, p, rep, c12_next)
    for a, bs in enumerate((['answers', 'authority', 'additional'], ['authority', 'additional'], ['additional'])):
        for item in bs:
            c.group('%s section, %s' % (SECT[a], item), section_change, c, p, rep, SECT[a], item, True)


def c12_next(c, p, rep, sec, how):
    ip, b, root, d0, outs = next_outcomes(c, rep, p, sec, how)
    errs = 0
    where = '%s (%s)' % (loc(b), sec)
    for s, v in outs:
        if not is_some_err(v):
            continue
        errs += 1
        for s2, v2 in run(ip, s.copy(), sect_fn(p, sec, 'next'), [mk('ref', root, ())], 'again'):
            c.ob(is_none(v2) and v2.a[1] == 0 and not is_some_ok(v2), 'after an error nothing more is produced', where, 'then %s' % show(v2))
        # moving on after the error
        if rep.flag is not None:
            for later, item in (('Answer', 'answers'), ('Authority', 'authority'), ('Additional', 'additional')):
                if SECT.index(later) != SECT.index(sec) + 1:
                    continue
                d1 = ip.load(s, root, ())
                for s2, v2 in run(ip, s.copy(), sect_fn(p, sec, item), [d1], item):
                    if v2.op == 'agg' and v2.a[1] == 0:
                        r3, ref3 = on_value(ip, s2, v2.a[2][0], 'd2')
                        for s3, v3 in run(ip, s2, sect_fn(p, later, 'next'), [ref3], 'later'):
                            c.ob(not is_some_ok(v3) if v3.op == 'agg' else None, 'after an error no later section produces an entry', where, 'then %s' % show(v3))
    c.ob(errs > 0, 'malformed entries are reported', where, '')


# ---- C32 --------------------------------------------------------------------------------------
def c32(c):
    """Every public method of a decoded entry (accessors, the typed form, the printed form) is evaluated on an arbitrary entry: in
    every outcome all memory it was given must be unchanged, interior-mutable cursors included, and no state outside the entry is touched."""
    p = c.prog()
    rep = c.group('MessageDecoder', Rep, c, p)
    if rep is None:
        return
    n = 0
    for ty in (DEC + 'ResourceRecord', DEC + 'Question'):
        for b in p.d['bodies']:
            if b['body'] is None or not b.get('local') or b['id'] not in p.roots or b['argc'] < 1 or b.get('pub') is not True and not b.get('trait'):
                continue
            t = p.types[b['locals'][1]]
            if t['k'] == 'ref' and not t.get('mut') and p.types[t['e']].get('path') == ty and b.get('dk') != 'Closure':
                n += 1
                c.group(loc(b), unchanged, c, p, rep, b)
    c.ob(n >= 10, 'methods of decoded entries found', DEC, '%d' % n)


def unchanged(c, p, rep, b):
    ip = rep.ip(c)
    ip.exact = False
    ip.opts['noev'] = 1
    ip.compact = 8
    args, res = ip.entry(b)
    c.account(ip)
    for s, v in res:
        root = ('S', args[0])
        now = s.mem.get(root)
        good = now is None or s.norm(now) is s.norm(ip.default(s, root)) or same_agg(ip, s, now, ip.default(s, root))
        c.ob(good, 'looking at an entry does not change it', loc(b), 'becomes %s' % show(now) if not good else '')
    for k in ip.unknown:
        if 'static' in str(k) or 'thread' in str(k):
            c.ob(None, 'looking at an entry touches no other state', loc(b), str(k))


def same_agg(ip, s, a, b):
    a = s.norm(a)
    if a is b:
        return True
    if a.op == 'agg':
        return all(same_agg(ip, s, x, ip.proj(s, b, ('f', a.a[1], i, x.ty))) for i, x in enumerate(a.a[2]) if isinstance(x, T))
    return s.norm(a) is s.norm(b)


# ---- C02, C27: the name reader -----------------------------------------------------------------
def reader_run(c, p, b):
    ip = c.interp(p, exact=1)
    ip.struct_inv[READER] = reader_inv(p)
    args, res = ip.entry(b)
    c.account(ip)
    rty = p.types[b['locals'][1]]['e']
    return ip, args, res, rty


class NameLoop:
    """the loop of a name reader: cursor candidates and what each iteration does to them"""
    def __init__(self, p, ip, args, rty):
        self.ip, self.p = ip, p
        st0 = State()
        pl = ip.deref(st0, args[0], rty)
        self.root = pl.root
        rv = ip.load(st0, pl.root, pl.path)
        bufp, self.posp = wire.reader_fields(p, rty)
        self.ct, self.off, self.n = ip.slice_content(st0, wire.getp(ip, st0, rv, bufp))
        self.start = wire.getp(ip, st0, rv, self.posp)
        self.recs = [(m, r) for m, rs in ip.loops.items() if isinstance(m, T) and m.op == 'loop' for r in rs]

    def byte(self, s, at):
        return s.norm(self.ip.proj(s, self.ct, ('i', add(self.off, at))))

    def target(self, s, at):
        return s.norm(frombits(bslice(bits_of(be(self.ip, s, self.ct, add(self.off, at), 2)), 0, 14)))

    def ints(self, head):
        """(key, path, phi) of integer loop variables"""
        out = []
        for k, v in head.mem.items():
            for path, x in leaves(v):
                if x.op == 'phi' and x.lo is not None:
                    out.append((k, path, x))
        return out


def leaves(v, path=(), d=6):
    if v.op == 'agg':
        if d:
            for i, x in enumerate(v.a[2]):
                if isinstance(x, T):
                    yield from leaves(x, path + (('f', v.a[1], i, x.ty),), d - 1)
    else:
        yield path, v


def at(ip, s, k, path):
    v = s.mem.get(k)
    if v is None:
        return None
    for e in path:
        if v.op == 'agg' and e[0] == 'f' and e[1] is not None and v.a[1] is not None and e[1] != v.a[1]:
            return None
        v = ip.proj(s, v, e)
    return s.norm(v)


def classify(L, r, x):
    """what an iteration does when the cursor is x at its head: [(kind, position of the length byte)]"""
    return None


def name_iterations(c, L, b):
    """-> (cursor location, [(rec, kind, at)]) where kind is 'label' or 'pointer', or Unknown"""
    best = None
    locs = {}
    for m, r in L.recs:
        for k, path, x in L.ints(r.head):
            locs.setdefault((k, strip(path)), []).append((m, r, path, x))
    for (k, sp), uses in locs.items():
        out, good = [], 0
        for m, r in L.recs:
            x = None
            for m2, r2, path, x2 in uses:
                if r2 is r:
                    x, pa = x2, path
            if x is None:
                x = at_strip(L.ip, r.head, k, sp)
                if x is None:
                    out.append((r, None, None, None, None))
                    continue
            y = at_strip(L.ip, r.back, k, sp)
            if y is None:
                out.append((r, None, x, None, None))
                continue
            kind, pos = step_kind(L, r.back, x, y)
            good += kind is not None
            out.append((r, kind, x, y, pos))
        if best is None or good > best[0]:
            best = (good, (k, sp), out)
    if best is None or best[0] == 0:
        raise Unknown('no loop variable of %s is the cursor' % loc(b))
    return best[1], best[2]


def strip(path):
    return tuple((e[0], e[2]) if e[0] == 'f' else e for e in path)


def at_strip(ip, s, k, sp):
    v = s.mem.get(k)
    if v is None:
        return None
    for e in sp:
        if v.op == 'agg':
            if e[1] >= len(v.a[2]):
                return None
            v = v.a[2][e[1]]
        else:
            return None
        if not isinstance(v, T):
            return None
    return s.norm(v)


def step_kind(L, s, x, y):
    """is the step from cursor x to y a label, or a pointer read at some position?"""
    b = L.byte(s, x)
    if s.entails_eq(y, add(addc(x, 1), b)):
        return 'label', x
    # y is the 14-bit target of a pointer: find where its low byte comes from
    for t in subterms(y):
        if t.op == 'elem' and t.a[0] is L.ct:
            for d in (0, 1):
                q = addc(sub(t.a[1], L.off), -d)
                if same_bits(s, y, L.target(s, q)):
                    return 'pointer', q
    if y is x:
        return 'stay', x
    return None, None


def c02(c):
    """The loop of the name reader is summarised: its variables are read off the loop, and each iteration must either move the
    cursor forward over a label or jump to a pointer's 14-bit target; jumping requires the target to be below a bound that starts at the name's start and is
    lowered to every target jumped to, so (bound, bytes left) decreases lexicographically."""
    p = c.prog()
    bs = [b for b in find_name_reader(p) if b['id'] in p.roots]
    if not bs:
        c.ob(None, 'the name reader is found', DEC, 'no function of type Reader -> Result<DomainName>')
    for b in bs:
        c.group(loc(b), c02_one, c, p, b)


def top2(s, b):
    return s.norm(frombits(bslice(bits_of(b), 6, 2)))


def c02_one(c, p, b):
    ip, args, res, rty = reader_run(c, p, b)
    L = NameLoop(p, ip, args, rty)
    if not L.recs:
        # no loop of its own: reads through another name reader
        c.ob(None if not delegates(p, b) else True, 'analysed', loc(b), 'no loop')
        return
    (k, sp), its = name_iterations(c, L, b)
    jumps = 0
    for r, kind, x, y, pos in its:
        s = r.back
        if kind == 'label':
            c.ob(True, 'a label moves the cursor forward', loc(b), '')
        elif kind == 'stay':
            c.ob(False if s.ev is r.head.ev else None, 'every iteration moves the cursor', loc(b), 'cursor stays at %s' % show(x))
        elif kind == 'pointer':
            jumps += 1
            bounds = []
            for k2, v2 in r.head.mem.items():
                for path, m in leaves(v2):
                    m = r.head.norm(m)
                    if m.lo is None and m.op not in ('int', 'lin', 'bits'):
                        continue
                    m2 = at_strip(ip, s, k2, strip(path))
                    if m2 is None or not s.entails_eq(m2, y):
                        continue
                    bounds.append((k2, strip(path), m))
            ok = False
            cand = False
            for k2, sp2, m in bounds:
                if (k2, sp2) == (k, sp):
                    continue
                if not bound_ok(L, its, k2, sp2):
                    continue
                cand = True
                if s.entails(addc(sub(m, y), -1)):
                    ok = True
            if not ok and not cand:
                # no bound is kept: can the pointer lead to the start of the name or later?
                s2 = s.copy()
                feas = s2.assume(ge0(sub(y, L.start)), True)
                if not feas:
                    s2 = s.copy()
                    feas = s2.assume(ge0(sub(y, pos)), True)
                c.ob(False if feas else None, 'a pointer only leads below the name and below every earlier target', loc(b), 'target %s is not checked' % show(y))
                continue
            c.ob(ok, 'a pointer only leads below the name and below every earlier target', loc(b), 'target %s' % show(y))
        else:
            if y is not None and s.entails(addc(sub(y, x), -1)):
                c.ob(True, 'the cursor moves forward', loc(b), '')
            else:
                c.ob(None, 'every iteration follows a label or a pointer', loc(b), 'cursor from %s to %s' % (show(x) if x is not None else '?', show(y) if y is not None else '?'))
    c.ob(jumps > 0 or None, 'pointers are followed by the reader', loc(b), '')
    em = [i for i, v in enumerate(p.types[[j for j, t in enumerate(p.types) if t.get('path') == 'uwuhi::error::Error'][0]]['v']) if v['n'] == 'PointerLoop']
    for s, v in res:
        if v.op == 'agg' and v.a[1] == 1 and v.a[2][0].op == 'agg' and em and v.a[2][0].a[1] == em[0]:
            c.ob(True, 'a pointer loop is reported', loc(b), '')


def bound_ok(L, its, k2, sp2):
    """a loop variable that starts at the name's start and is only changed to the target of a jump"""
    ip = L.ip
    inits = [s for ss in ip.loop_init.values() for s in ss]
    for s in inits:
        m0 = at_strip(ip, s, k2, sp2)
        if m0 is not None and not s.entails(sub(L.start, m0)):
            return False
    for r, kind, x, y, pos in its:
        h, m = at_strip(ip, r.head, k2, sp2), at_strip(ip, r.back, k2, sp2)
        if h is None or m is None:
            return False
        if h is m or r.back.entails_eq(h, m):
            continue
        if kind == 'pointer' and r.back.entails_eq(m, y):
            continue
        return False
    return True


def delegates(p, b):
    ids = {x['id'] for x in find_name_reader(p)}
    return bool(calls_of(b) & (ids - {b['id']}))


def c27(c):
    """Per iteration of the name reader's loop: a length byte with top bits 00 appends the label of exactly the next bytes and moves
    behind them, top bits 11 continue at the 14-bit target and append nothing, anything else ends with an error. In every successful outcome the reader's cursor is
    behind the zero byte, or behind the first pointer: the value kept for it is set when no pointer has been followed yet and never changed again. An error outcome
    is only possible where the message is too short, uses a reserved kind or a pointer that is not allowed."""
    p = c.prog()
    bs = [b for b in find_name_reader(p) if b['id'] in p.roots]
    if not bs:
        c.ob(None, 'the name reader is found', DEC, 'no function of type Reader -> Result<DomainName>')
    for b in bs:
        c.group(loc(b), c27_one, c, p, b)


def c27_one(c, p, b):
    import names
    ip, args, res, rty = reader_run(c, p, b)
    L = NameLoop(p, ip, args, rty)
    if not L.recs:
        c.ob(True if delegates(p, b) else None, 'analysed', loc(b), 'no loop')
        return
    (k, sp), its = name_iterations(c, L, b)
    D = names.tyid(p, names.DN)
    fs = [i for i, f in enumerate(p.fields(D)) if p.types[f].get('path') == 'std::vec::Vec']
    dpath = (('f', None, fs[0], p.fields(D)[fs[0]]), ('v',)) if fs else None
    for r, kind, x, y, pos in its:
        s = r.back
        push = [e.a[1] for e in r.evs if e.op == 'ev' and e.a[1][0] == 'push']
        if kind == 'label':
            lb = L.byte(s, x)
            c.ob(s.entails(addc(lb, -1)) and (getattr(c, 'plain', False) or s.entails(sub(I(63), lb))), 'only length bytes 1 to 63 are labels', loc(b), 'length byte %s' % show(lb))
            if len(push) != 1:
                c.ob(False if not push else None, 'every label is kept, once', loc(b), '%d labels appended' % len(push))
                continue
            try:
                q = parts_of(ip, s, names.label_bytes(ip, s, push[0][3]))
            except Exception:
                c.ob(None, 'a label is the bytes behind its length byte', loc(b), show(push[0][3]))
                continue
            good = len(q) == 1 and q[0][0] == 'span' and q[0][1] is L.ct and s.entails_eq(q[0][2], addc(add(L.off, x), 1)) and s.entails_eq(q[0][3], lb)
            c.ob(good, 'a label is the bytes behind its length byte', loc(b), show(push[0][3]))
        elif kind == 'pointer':
            c.ob(same_bits(s, top2(s, L.byte(s, pos)), I(3)) or getattr(c, 'plain', False) and not s.copy().assume(ge0(sub(I(63), L.byte(s, pos))), True), 'only bytes with both top bits set start a pointer', loc(b), 'byte %s' % show(L.byte(s, pos)))
            c.ob(not push or None, 'a pointer adds no label', loc(b), '')
        elif kind == 'stay' and s.ev is r.head.ev:
            c.ob(None, 'every iteration follows a label or a pointer', loc(b), '')
        else:
            # is it a wrong step of a recognised cursor?
            wrong = y is not None and x is not None and any(t.op == 'elem' and t.a[0] is L.ct for t in subterms(y)) and len(its) > 1 and not any(t.op == 'phi' and t is not x for t in subterms(y))
            c.ob(False if wrong else None, 'every iteration follows a label or a pointer', loc(b), 'cursor from %s to %s' % (show(x) if x is not None else '?', show(y) if y is not None else '?'))
    for s, v in res:
        if v.op != 'agg':
            c.ob(None, 'analysed', loc(b), show(v))
        elif v.a[1] == 0:
            c27_ok(c, p, b, L, its, s, v, dpath, k, sp)
        else:
            c27_err(c, p, b, L, its, s, v, k, sp)


def cur_of(L, s, k, sp):
    return at_strip(L.ip, s, k, sp)


def c27_ok(c, p, b, L, its, s, v, dpath, k, sp):
    ip = L.ip
    rule = 'the cursor ends behind the terminating zero or the first pointer'
    d = ip.load(s, L.root, ())
    fin = s.norm(wire.getp(ip, s, d, L.posp))
    heads = {x for r, kind, x, y, pos in its if x is not None}
    # the name ends at a zero byte
    zeros = [x for x in heads if same_zero(s, L.byte(s, x))]
    direct = any(s.entails_eq(fin, addc(x, 1)) for x in zeros)
    verdict = None
    if direct:
        # no pointer may have been followed on this path: the loop iterations that lead here contain no jump
        verdict = jumpfree(L, its, s, [x for x in zeros if s.entails_eq(fin, addc(x, 1))][0])
    elif fin.op == 'phi':
        verdict = first_pointer(L, its, fin)
    else:
        verdict = False if not any(t.op == 'phi' and t not in heads for t in subterms(fin)) else None
    if not (getattr(c, 'plain', False) and (direct or fin.op == 'phi' or any(same_bits(s, top2(s, L.byte(s, x)), I(3)) for x in heads))):
        c.ob(verdict, rule, loc(b), 'cursor %s' % show(fin))
    c.ob(True if zeros else None, 'a name ends at a zero byte', loc(b), '')
    if dpath is not None:
        seq = sequence(ip, s, walk(ip, s, v.a[2][0], dpath), 1)
        c.ob(True if not seq or all(q[0] == 'each' or q[0] == 'span' and q[1].op == 'phi' for q in seq) else None, 'the name is the labels met, in order', loc(b), show(v))


def same_zero(s, b):
    return s.entails_eq(b, I(0))


def jumpfree(L, its, s, x):
    """x is the cursor of loop iterations before which no jump can have happened"""
    ip = L.ip
    jumps = [(r, y) for r, kind, hx, y, pos in its if kind == 'pointer']
    after = {ip.sshape(r.back) for r, y in jumps}
    while True:
        more = {ip.sshape(r.back) for r, *_ in its if r.shp in after} - after
        if not more:
            break
        after |= more
    same = [r for r, kind, hx, y, pos in its if hx is x]
    if not any(r.shp in after for r in same):
        return True
    # a number that tells the two apart: constant here, something else after every jump
    for r0 in same:
        for k2, v2 in r0.head.mem.items():
            for path, h in leaves(v2):
                if h.op != 'phi' or h.lo is None or h is x:
                    continue
                for cst in (0, USIZE):
                    if not s.entails_eq(h, I(cst)):
                        continue
                    ok = True
                    for r, kind, hx, y, pos in its:
                        m = at_strip(ip, r.back, k2, strip(path))
                        hh = at_strip(ip, r.head, k2, strip(path))
                        if m is None:
                            ok = False
                        elif kind == 'pointer':
                            ok = ok and not r.back.copy().assume(eq0(sub(m, I(cst))), True)
                        else:
                            ok = ok and (m is hh)
                    if ok:
                        return True
    return False


def first_pointer(L, its, fin):
    ip = L.ip
    where = set()
    for r, kind, x, y, pos in its:
        for k2, v2 in r.head.mem.items():
            for path, m in leaves(v2):
                if m is fin:
                    where.add((k2, strip(path)))
    if not where:
        return None
    res = []
    for k2, sp2 in where:
        v = True
        sets = 0
        for r, kind, x, y, pos in its:
            h, m = at_strip(ip, r.head, k2, sp2), at_strip(ip, r.back, k2, sp2)
            if h is fin:
                if m is not fin:
                    if kind == 'pointer' and m is not None and r.back.entails_eq(m, addc(pos, 2)):
                        v = False           # moved to a later pointer
                    elif m is not None:
                        v = False
                    else:
                        v = None
            elif m is not None and (h is None or h is not m):
                sets += 1
                if kind == 'pointer':
                    if not r.back.entails_eq(m, addc(pos, 2)):
                        v = False
                else:
                    v = None if v else v
        if not sets:
            v = None
        res.append(v)
    return True if True in res else False if False in res else None


def c27_err(c, p, b, L, its, s, v, k, sp):
    """an error needs a reason"""
    ip = L.ip
    xs = {x for r, kind, x, y, pos in its if x is not None}
    cur = [x for x in xs if x in state_terms(s)]
    if not cur:
        return
    if len({m for m, r in L.recs}) > 1:
        # with several loops the head whose cursor is current is the one whose byte the path has looked at
        ts = dep_terms(s)
        cur = [x for x in cur if L.byte(s, x) in ts or any(t.op == 'elem' and t.a[0] is L.ct and t.a[1] is s.norm(add(L.off, x)) for t in ts)]
        if not cur:
            return
    why = [valid_at(L, its, s, x) for x in cur]
    if getattr(c, 'plain', False) and any(w and 'pointer' in w for w in why):
        return
    c.ob(not all(why), 'a well-formed name is decoded', loc(b), 'error %s although %s' % (show(v), why[0]))


def valid_at(L, its, s, x):
    """may the label or pointer at cursor x be a proper one in this state?"""
    ip = L.ip
    n = L.n
    s1 = s.copy()
    lb = L.byte(s1, x)
    if s1.assume(ge0(addc(sub(n, x), -1)), True) and s1.assume(eq0(top2(s1, lb)), True) and s1.assume(ge0(addc(sub(sub(n, x), lb), -1)), True):
        return 'the label lies in the message'
    s2 = s.copy()
    t2 = top2(s2, lb)
    if not (s2.assume(ge0(addc(sub(n, x), -2)), True) and s2.assume(eq0(addc(t2, -3)), True)):
        return None
    y = L.target(s2, x)
    if not (s2.assume(eq0(y), True) and s2.assume(ge0(addc(L.start, -1)), True)):
        return None
    ms = set()
    for r, kind, hx, hy, pos in its:
        for k2, v2 in r.head.mem.items():
            for path, m in leaves(v2):
                if m.op == 'phi' and m.lo is not None and m is not x and m in state_terms(s2) and bound_ok(L, its, k2, strip(path)):
                    ms.add(m)
    for m in ms:
        if not s2.assume(ge0(addc(m, -1)), True):
            return None
    return 'the pointer is allowed'


PROPS = {'C11': c11, 'C10': c10, 'C12': c12, 'C32': c32, 'C02': c02, 'C27': c27}
