"""The advertiser and the listening services: C13, C14, C15, C16, C26, C17."""
from base import *
from util import *
import wire, names, decoding
from wire import PK
from absenc import encoder_summary, decoder_summary, run_any, chain, kind, last, ENC
from decoding import run, on_value, uniq

SV = 'uwuhi::service::'
ADV = SV + 'advertising::'
HP = ADV + 'Advertiser::handle_packet'
DN = 'uwuhi::name::DomainName'
REC = PK + 'records::Record'
CLS = PK + 'Class'


def svc_interp(c, p, **o):
    ip = c.interp(p, exact=1, maxstates=400, **o)
    wire.name_summary(ip, p, True)
    encoder_summary(ip, p)
    decoder_summary(ip, p)
    ip.struct_inv[decoding.READER] = decoding.reader_inv(p)
    eq_summary(ip, p)
    return ip


def eq_summary(ip, p):
    """equality of two names is a fact about the two names"""
    for b in p.d['bodies']:
        if b['body'] is not None and b.get('item') in ('eq', 'ne') and npath(b['path']).startswith('<' + DN + ' as '):
            ip.summaries[b['id']] = lambda c, st, args, k=b['item']: name_equal(c, st, args, k)


def name_equal(c, st, args, k):
    t = same_names(c.ip, st, args)
    return [(st, t if k == 'eq' else sub(I(1), t))]


def same_names(ip, st, args):
    vs = []
    for a in args:
        for _ in range(3):
            if a.op == 'ref':
                a = ip.load(st, a.a[0], a.a[1])
        if a.ty is None or ip.p.tk(a.ty) == 'ref':
            pl = ip.deref(st, a, tyof(ip.p, DN))
            a = ip.load(st, pl.root, pl.path)
        vs.append(a)
    vs.sort(key=lambda t: t.id)
    return mk('nameeq', *vs, ty=ip.p.strid.get('bool'), rng=(0, 1)) if vs[0] is not vs[1] else I(1)


def tyof(p, path):
    for i, t in enumerate(p.types):
        if t.get('path') == path:
            return i
    raise NoAnchor('type ' + path)


def is_err(v):
    return v.op in ('agg',) and v.a[1] == 1


def is_(v, *vars_):
    """v is the nested enum variant, e.g. is_(v, 0, 1): Ok(Some(_))"""
    for k in vars_:
        if v.op != 'agg' or v.a[1] != k:
            return False
        v = v.a[2][0] if v.a[2] else mk('none')
    return True


# ---- handle_packet ------------------------------------------------------------------------------
class Handle:
    """one run of Advertiser::handle_packet on an arbitrary packet and an arbitrary advertiser"""
    def __init__(self, c, p):
        self.c, self.p = c, p
        self.b = fn(p, HP)
        self.ip = svc_interp(c, p)
        self.args, self.res = run_any(self.ip, self.b)
        c.account(self.ip)
        self.where = loc(self.b)

    def pkt(self, s, i):
        ct, off, n = self.ip.slice_content(s, self.args[1])
        return self.ip.proj(s, ct, ('i', addc(off, i)))

    def reply(self, v):
        """payload of Ok(Some(_)), None for Ok(None), False for an error"""
        if is_(v, 0, 1):
            return v.a[2][0].a[2][0]
        if is_(v, 0, 0) and not v.a[2][0].a[2]:
            return None
        if is_err(v):
            return False
        raise Unknown('the outcome %s' % show(v)[:80])


def no_answer(s):
    return s.ghost.get(('enc', 'add_answer')) is not True


def c13(c):
    """Every outcome of Advertiser::handle_packet for an arbitrary packet and arbitrary registered records is computed. A reply must imply QR = 0, opcode = 0 and
    RCODE = 0 in the packet's own header and that at least one record was put in the answer section on the way; 'no reply' to such a query must imply that none was."""
    p = c.prog()
    h = c.group('Advertiser::handle_packet', Handle, c, p)
    if h is None:
        return
    ip = h.ip
    n = {True: 0, None: 0, False: 0}
    for s, v in h.res:
        so = Soft(c, ip, s)
        r = h.reply(v)
        n[True if isinstance(r, T) else r] += 1
        b2, b3 = h.pkt(s, 2), h.pkt(s, 3)
        head = [('a response', bit(s, b2, 7, 1)), ('of another opcode than QUERY', bit(s, b2, 3, 4)), ('with a response code', bit(s, b3, 0, 4))]
        if isinstance(r, T):
            for what, t in head:
                s2 = s.copy()
                so.ob(s.entails_eq(t, I(0)), 'a packet %s gets no reply' % what, h.where, 'packet header %s' % show(s2.norm(t)))
            so.ob(not no_answer(s), 'a packet no record answers gets no reply', h.where, 'replies without having added an answer')
        elif r is None:
            standard = s.copy()
            ok = all(standard.assume(eq0(t), True) for _, t in head)
            if ok:
                # a standard query: it may stay unanswered only if nothing matched
                so.ob(no_answer(s), 'a query with a matching record gets a reply', h.where, 'answers were added, but no reply is made')
                if last(chain(s.ev), 'dec.end', 'dec.entry', 'dec.err') is None:
                    early(c, h, s, standard)
            else:
                so.ob(True, 'a packet that is no standard query gets no reply', h.where, '')
        else:
            so.ob(True, 'a packet that does not decode gets no reply', h.where, '')
    c.ob(n[True] > 0, 'queries are answered', h.where, 'no outcome is a reply')


def early(c, h, s, standard):
    """no reply to a standard query before its questions were looked at: allowed only if there is nothing to answer"""
    ct, off, n = h.ip.slice_content(s, h.args[1])
    cnt = [h.pkt(s, 4), h.pkt(s, 5)]
    if all(standard.entails_eq(x, I(0)) for x in cnt):
        c.ob(True, 'every question of a query is looked at', h.where, '')
        return
    dep = [t for t in dep_terms(s) if t.op in ('len', 'elem', 'byteof', 'bits')]
    # conditions on anything but the header that was looked at: not decided
    c.ob(None if other_conditions(h, s) else False, 'every question of a query is looked at', h.where, 'the packet is dropped before its questions are read')


def other_conditions(h, s):
    """does the state depend on the registered records?"""
    root = ('S', h.args[0])
    d = h.ip.default(s, root)
    return any(d in subterms(k) for k in list(s.eqc) + list(s.neq) if isinstance(k, T))


def bit(s, t, lo, n):
    bs = bits_of(s.norm(t))
    if bs is None:
        raise Unknown('a header byte')
    return s.norm(frombits(bslice(bs, lo, n)))


# ---- C14
def flat(ip, s, v, want, path=(), d=3, ty=None):
    """paths to the components of a struct value whose type satisfies want"""
    ty = v.ty if ty is None else ty
    if ty is None:
        return
    t = ip.p.types[ty]
    if want(t):
        yield path, v
        return
    if t['k'] == 'struct' and d and t.get('path', '').startswith('uwuhi'):
        for i, f in enumerate(ip.p.fields(ty)):
            yield from flat(ip, s, ip.proj(s, v, ('f', None, i, f)), want, path + (('f', None, i, f),), d - 1, f)


def deref_ty(p, t):
    return p.types[t['e']] if t['k'] == 'ref' else t


def elem_type(ip, s, root, path):
    """the type of the element a path leads to"""
    v = ip.load(s, root, path)
    if v.ty is not None:
        return v.ty
    for e in reversed(path):
        if e[0] == 'f' and len(e) > 3 and e[3] is not None:
            t = ip.p.types[e[3]]
            if t.get('e') is not None:
                return t['e']
            if t.get('args'):
                return t['args'][0]
            break
    raise Unknown('the registered records')


def pick1(ip, s, v, want, what, ty=None):
    l = list(flat(ip, s, v, want, (), 3, ty))
    if len(l) != 1:
        raise Unknown('%s of %s' % (what, ip.p.ts(v.ty) if v.ty is not None else show(v)[:40]))
    return l[0]


class RR:
    """a resource record being encoded"""
    def __init__(self, ip, s, v):
        p = ip.p
        def by(path):
            return lambda t: deref_ty(p, t).get('path') == path
        self.name = pick1(ip, s, v, by(DN), 'the name')[1]
        self.cls = pick1(ip, s, v, by(CLS), 'the class')[1]
        self.data = pick1(ip, s, v, by(REC), 'the data')[1]
        self.ttl = pick1(ip, s, v, lambda t: t['s'] == 'u32', 'the TTL')[1]


def place_of(ip, s, v):
    """a reference as (root, path), or None"""
    if v.op == 'ref':
        return v.a[0], v.a[1]
    return None


def elem_split(path):
    """the path up to and including its last index"""
    for i in range(len(path) - 1, -1, -1):
        if path[i][0] == 'i':
            return path[:i + 1], path[i + 1:]
    return None


def c14(c):
    """handle_packet's loops over questions and registered records are taken one iteration at a time. An iteration that puts an answer must imply, one that does
    not must contradict, (the class matches and the type matches and the name is equal), all three evaluated with the crate's own functions in the state at the end
    of the iteration; the answer consists of the record's own name, class, TTL and data; the loops visit every record from the first to the last for every question
    there is."""
    p = c.prog()
    h = c.group('Advertiser::handle_packet', Handle, c, p)
    if h is None:
        return
    c.group('Advertiser::handle_packet', c14_loops, c, p, h)
    for nm, other, special in (('QType', 'Type', {252: None, 253: (7, 8, 9), 254: None}), ('QClass', 'Class', {})):
        c.group(nm + '::matches', c14_matches, c, p, nm, other, special)
    for path, item, crate in LISTEN[:2]:
        c.group(path, listen, c, crate, path, item, ('C14',))
    # names are compared with the library's own equality
    import equality
    equality.comparisons(c, ('eq',), (equality.LB, equality.DN))


def c14_matches(c, p, nm, other, special):
    """x asks for y iff x is 255 (any) or x and y are the same number, the obsolete mail and transfer questions aside"""
    b = fn(p, PK + nm + '::matches')
    ip = svc_interp(c, p)
    args, res = run_any(ip, b)
    c.account(ip)
    for s, v in res:
        xs = []
        for k, a in enumerate(args):
            t = p.types[b['locals'][k + 1]]
            if t['k'] == 'ref':
                a = ip.load(s, a.a[0], a.a[1]) if a.op == 'ref' else ip.load(s, ('S', a), ())
            xs.append(pick1(ip, s, a, lambda t: t['s'] == 'u16', 'the number of', deref_tyid(p, b['locals'][k + 1]))[1])
        x, y = xs
        for s2, m in s.bool_cases(v):
            for num in [255] + sorted(special) + [None]:
                s3 = s2.copy()
                if num is not None:
                    if not s3.assume(eq0(addc(x, -num)), True):
                        continue
                else:
                    if not all(s3.assume(eq0(addc(x, -k)), False) for k in [255] + list(special)):
                        continue
                if num == 255:
                    Soft(c, ip, s3).ob(m, '%s 255 matches everything' % nm, loc(b), 'does not match %s' % show(s3.norm(y)))
                elif num is None:
                    s4 = s3.copy()
                    if s4.assume(eq0(sub(x, y)), not m):
                        Soft(c, ip, s4).ob(False, 'a %s matches exactly the %s of the same number' % (nm, other), loc(b), '%s and %s: %s' % (show(s4.norm(x)), show(s4.norm(y)), 'match' if m else 'no match'))
                    else:
                        c.ob(True, 'a %s matches exactly the %s of the same number' % (nm, other), loc(b), '')
                elif special[num]:
                    for k in special[num]:
                        s4 = s3.copy()
                        if s4.assume(eq0(addc(y, -k)), True):
                            Soft(c, ip, s4).ob(m, '%s %d matches %s' % (nm, num, special[num]), loc(b), 'no match for %d' % k)
                    if m:
                        s4 = s3.copy()
                        bad = all(s4.assume(eq0(addc(y, -k)), False) for k in special[num])
                        Soft(c, ip, s4).ob(not bad, '%s %d matches only %s' % (nm, num, special[num]), loc(b), 'matches %s' % show(s4.norm(y)))


def deref_tyid(p, t):
    return p.types[t]['e'] if p.tk(t) == 'ref' else t


def c14_loops(c0, p, h):
    c = c0
    ip = h.ip
    adds = [e for s, v in h.res for e in chain(s.ev) if kind(e) == 'enc.add_answer']
    every = [k for k in h.ip.loops if not isinstance(k, tuple)]
    if not adds and not any(kind(e) == 'enc.add_answer' for m in every for r in ip.loops[m] or [] for e in r.evs):
        c0.ob(False, 'every record matching a question is put in the answer', h.where, 'nothing is ever put in the answer section')
        return
    for m in every:
        for r in ip.loops[m] or []:
            if any(kind(e) == 'dec.entry' for e in r.evs):
                left_early(c0, h, r)
    for other in ('add_authority', 'add_additional', 'question'):
        for s, v in h.res:
            if s.ghost.get(('enc', other)):
                c.ob(None, 'the reply consists of answers', h.where, other)
    scan = Scan(c0, h)
    scan.check()
    # every record for every question
    for m in every:
        for r in ip.loops[m] or []:
            if not any(kind(e) == 'dec.entry' for e in r.evs):
                continue
            ls = [e for e in r.evs if e.op == 'loop' and e in scan.loops]
            c = Soft(c0, ip, r.back)
            c.ob(len(ls) > 0, 'every question is compared with the registered records', h.where, 'a question is passed over')
            for l in ls[:1]:
                c.ob(scan.exhausted(r.back, l), 'every registered record is compared with a question', h.where, 'the records are left before the last one')
    for s, v in h.res:
        if isinstance(h.reply(v), T):
            k = last(chain(s.ev), 'dec.end', 'dec.entry', 'dec.err')
            Soft(c0, ip, s).ob(k is not None and k[0] == 'dec.end', 'every question of a query is answered', h.where, 'a reply is made before the questions are exhausted')


def left_early(c, h, r):
    """a record put in the answer on leaving the loop over the records"""
    ip, s = h.ip, r.back
    m = None
    for e in r.evs:
        if e.op == 'loop':
            m = e
        elif kind(e) == 'enc.add_answer' and m is not None:
            try:
                pl = place_of(ip, s, RR(ip, s, e.a[1][1]).data)
            except Unknown:
                continue
            sp = elem_split(pl[1]) if pl is not None else None
            if sp is None:
                continue
            at = set(lin(sp[0][-1][1])[1])
            if any(at & subterms(v) for x in ip.loops.get(m) or [] for v in x.head.mem.values()):
                i, n = sp[0][-1][1], ip.length(ip.load(s, pl[0], sp[0][:-1]))
                Soft(c, ip, s).ob(s.entails_eq(addc(i, 1), n), 'every registered record is compared with a question', h.where, 'the records are left after one that matches')


class Scan:
    """the loops that walk through the registered records: root and path of the collection, how the position is represented, and per loop its head positions"""
    def __init__(self, c, h):
        ip = h.ip
        self.c, self.h, self.ip = c, h, ip
        self.where = None
        loops = {m: recs for m, recs in ip.loops.items() if not isinstance(m, tuple) and recs}
        for m, recs in loops.items():
            for r in recs:
                for e in r.evs:
                    if kind(e) == 'enc.add_answer' and self.where is None:
                        self.locate(r, e, loops)
        if self.where is None:
            raise Unknown('the position in the records')
        k, path = self.where
        self.loops, self.pos = {}, {}
        for m, recs in loops.items():
            good = True
            for r in recs:
                if id(r.head) in self.pos:
                    continue
                i = self.at(r.head)
                if i is None:
                    good = False
                    break
                self.pos[id(r.head)] = i
            if good and not any(kind(e) == 'dec.entry' for r in recs for e in r.evs):
                self.loops[m] = recs

    def locate(self, r, e, loops):
        ip = self.ip
        pl = place_of(ip, r.back, RR(ip, r.back, e.a[1][1]).data)
        if pl is None:
            raise Unknown('an answer that is no reference to a registered record')
        sp = elem_split(pl[1])
        if sp is None:
            raise Unknown('an answer that is no element of a collection')
        k0, at = lin(sp[0][-1][1])
        if len(at) != 1 or set(at.values()) != {1} or k0 not in (0, -1):
            return
        i0 = list(at)[0]
        for recs in loops.values():
            for q in recs:
                for k, v in q.head.mem.items():
                    path = find_path(v, i0)
                    if path is not None:
                        self.where = (k, path)
                        self.root, self.coll, self.down, self.k0 = pl[0], sp[0][:-1], k0 == -1, k0
                        return

    def at(self, s):
        k, path = self.where
        if k not in s.mem:
            return None
        try:
            return walk(self.ip, s, s.mem[k], path)
        except Exception:
            return None

    def total(self, s):
        return self.ip.length(self.ip.load(s, self.root, self.coll))

    def check(self):
        c, h, ip = self.c, self.h, self.ip
        rule = 'every registered record is compared with a question'
        own = {m: {self.pos[id(r.head)] for r in recs} for m, recs in self.loops.items()}
        for m in self.loops:
            for s in ip.loop_init.get(m, []):
                i = self.at(s)
                if i is None:
                    c.ob(None, rule, h.where, 'the first record compared')
                    continue
                if any(i in ps for m2, ps in own.items() if m2 is not m):
                    continue    # goes on where an enclosing loop is
                first = self.total(s) if self.down else I(0)
                Soft(c, ip, s).ob(s.entails_eq(i, first) or (False if s.norm(sub(i, first)).op == 'int' else None), rule, h.where, 'the first record compared is number %s' % show(i))
        for m, recs in self.loops.items():
            for r in recs:
                c.group(h.where, self.rec, m, r, own, rule)

    def rec(self, m, r, own, rule):
        c, h, ip, s = self.c, self.h, self.ip, r.back
        by = -1 if self.down else 1
        starts = [self.pos[id(r.head)]]
        inner = [e for e in r.evs if e.op == 'loop' and e in self.loops]
        for e in inner:
            starts += list(own[e])
        j = self.at(s)
        if j is None:
            c.ob(None, rule, h.where, 'the position at the end of an iteration')
            return
        i = [x for x in starts if s.entails_eq(j, addc(x, by))]
        if not i:
            same = [x for x in starts if s.entails_eq(j, x)]
            if same and not any(kind(e) == 'enc.add_answer' for e in r.evs):
                c.ob(True if inner else None, rule, h.where, 'no progress')
                return
            const = not inner and s.norm(sub(j, starts[0])).op == 'int'
            Soft(c, ip, s).ob(False if const else None, rule, h.where, 'the position goes from %s to %s' % (show(starts[0]), show(j)))
            return
        c.ob(True, rule, h.where, '')
        step(c, h, r, self.root, self.coll + (('i', addc(i[-1], self.k0)),))

    def exhausted(self, s, m):
        """was the walk through the records that ends in s left because there was no further record?"""
        some_ = False
        cand = []
        for recs in self.loops.values():
            for r in recs:
                x = (self.pos[id(r.head)], I(0) if self.down else self.total(r.head))
                if x not in cand:
                    cand.append(x)
        dep = dep_terms(s)
        for i, n in cand:
            if i.op != 'int' and i in dep and s.entails_eq(i, n):
                return True
        for i, n in cand:
            if i.op != 'int' and (i in dep or any(i in subterms(a) for f in s.facts for a, _ in f[1])):
                s2 = s.copy()
                if s2.add_eq0(sub(i, n)):
                    return None
                some_ = True
        return False if some_ else None


def step(c, h, r, root, epath):
    """one registered record compared with one question"""
    ip, p, s = h.ip, h.p, r.back
    c = Soft(c, ip, s)
    q = last(chain(s.ev), 'dec.entry')
    if q is None:
        raise Unknown('the question')
    entry = ip.load(s, root, epath)
    ety = elem_type(ip, s, root, epath)
    f = {}
    for nm, pred in (('name', lambda t: t.get('path') == DN), ('cls', lambda t: t.get('path') == CLS), ('ttl', lambda t: t['s'] == 'u32'), ('rec', lambda t: t.get('path') == REC)):
        f[nm] = pick1(ip, s, entry, pred, 'the ' + nm, ety)
    adds = [e for e in r.evs if kind(e) == 'enc.add_answer']
    outs = matching(h, s, q[2], root, epath, f)
    if outs is None:
        raise Unknown('whether a record matches')
    desc = 'type %s, class %s' % (show(s.norm(outs[0][1]))[:60], show(s.norm(outs[0][2]))[:60]) if outs else ''
    if adds:
        c.ob(all(o[3] for o in outs), 'only records matching a question are put in the answer', h.where, desc)
        c.ob(len(adds) == 1, 'a matching record is put in the answer once', h.where, '%d times' % len(adds))
        for e in adds:
            rr = RR(ip, s, e.a[1][1])
            for nm, got, fld in (('name', rr.name, 'name'), ('data', rr.data, 'rec')):
                pl = place_of(ip, s, got)
                good = pl == (root, epath + f[fld][0])
                if not good and pl is not None:
                    a = ip.load(s, *pl)
                    good = a is f[fld][1] or None if not (pl[0] == root and pl[1][:len(epath)] == epath) else False
                    if nm == 'name' and s.entails_eq(same_names(ip, s, [got, mk('ref', root, epath + f[fld][0])]), I(1)):
                        good = True
                    elif good is None and pl[0] == root and pl[1] != epath + f[fld][0]:
                        good = False
                c.ob(good, 'an answer carries the record\'s own %s' % nm, h.where, show(got))
            c.ob(same_val(s, rr.cls, f['cls'][1]), 'an answer carries the record\'s own class', h.where, show(rr.cls))
            c.ob(s.entails_eq(rr.ttl, f['ttl'][1]), 'an answer carries the record\'s own time to live', h.where, show(rr.ttl))
    else:
        c.ob(not any(o[3] for o in outs), 'every record matching a question is put in the answer', h.where, desc)


def same_val(s, a, b):
    if a is b:
        return True
    if a.op == 'agg' and b.op == 'agg':
        return a.a[1] == b.a[1] and len(a.a[2]) == len(b.a[2]) and all(same_val(s, x, y) for x, y in zip(a.a[2], b.a[2]))
    if a.op == 'agg' and len(a.a[2]) == 1:
        x = a.a[2][0]
        return x.op == 'fld' and x.a[0] is b or (b.op == 'fld' and False)
    return s.entails_eq(a, b) if a.op != 'agg' and b.op != 'agg' else False


def matching(h, s, q, root, epath, f):
    """[(state, qtype, qclass, does the record match the question)] over all cases"""
    ip, p = h.ip, h.p
    out = []
    qroot, qref = on_value(ip, s := s.copy(), q, 'q')
    cases = [(s, True, None, None)]

    def each(cases, f):
        nxt = []
        for st, ok, a, b in cases:
            nxt += f(st, ok, a, b)
        return nxt

    def get(nm):
        return fn(p, PK + 'decoder::Question::' + nm)
    cases2 = []
    for s1, qt in run(ip, s, get('qtype'), [qref], 'qtype'):
        for s2, qc in run(ip, s1, get('qclass'), [qref], 'qclass'):
            for s3, rt in run(ip, s2, fn(p, REC + '::record_type'), [mk('ref', root, epath + f['rec'][0])], 'rt'):
                for s4, tm in run(ip, s3, fn(p, PK + 'QType::matches'), wargs(ip, s3, fn(p, PK + 'QType::matches'), qt, rt), 'tm'):
                    for s5, tv in s4.bool_cases(tm):
                        for s6, cm in run(ip, s5, fn(p, PK + 'QClass::matches'), wargs(ip, s5, fn(p, PK + 'QClass::matches'), qc, f['cls'][1]), 'cm'):
                            for s7, cv in s6.bool_cases(cm):
                                for s8, qn in run(ip, s7, get('qname'), [qref], 'qname'):
                                    for s9, nv in name_eq(h, s8, qn, mk('ref', root, epath + f['name'][0])):
                                        out.append((s9, qt, qc, tv and cv and nv))
    return out


def wargs(ip, s, b, a, r):
    """arguments by value or by reference, as the function takes them"""
    out = []
    for k, v in enumerate((a, r)):
        t = ip.p.types[b['locals'][k + 1]]
        if t['k'] == 'ref' and not (v.ty is not None and ip.p.types[v.ty]['k'] == 'ref'):
            out.append(on_value(ip, s, v, 'm%d' % k)[1])
        else:
            out.append(v)
    return out


def name_eq(h, s, a, b):
    return s.copy().bool_cases(same_names(h.ip, s, [a, b]))


# ---- C15
def c15(c):
    """The header given to the encoder is evaluated with the crate's own accessors and compared with the query's; the reply must be the encoder's buffer, from its
    first byte, as long as what finish() reported, or whole when it reported truncation. In the listening loops every reply is sent as it is, to the sender of the
    datagram it answers, exactly once."""
    p = c.prog()
    h = c.group('Advertiser::handle_packet', Handle, c, p)
    if h is not None:
        c.group('Advertiser::handle_packet', c15_reply, c, p, h)
    for path, item, crate in LISTEN[:2]:
        c.group(path, listen, c, crate, path, item, ('C15',))


def c15_reply(c0, p, h):
    ip, c = h.ip, c0
    for s, v in h.res:
        r = h.reply(v)
        if not isinstance(r, T):
            continue
        c = Soft(c0, ip, s)
        evs = chain(s.ev)
        hd, new, fin, drop = last(evs, 'enc.header'), last(evs, 'enc.new'), last(evs, 'enc.finish'), last(evs, 'enc.drop')
        if new is None:
            raise Unknown('where the reply is built')
        if hd is None:
            c.ob(False, 'a reply carries the ID of its query', h.where, 'no header is set')
            continue
        hdr = hd[1]
        root, ref = on_value(ip, s2 := s.copy(), hdr, 'hdr')
        for item, what, want in HEADER:
            b = fn(p, PK + 'Header::' + item)
            for s3, x in run(ip, s2.copy(), b, [ref], item):
                if want is None:
                    ct, o, _ = ip.slice_content(s3, h.args[1])
                    w = decoding.be(ip, s3, ct, o, 2)
                    c.ob(same_bits(s3, x, w), 'a reply carries the ID of its query', h.where, show(x))
                else:
                    if x.op == 'agg':
                        x = x.a[2][0]
                    c.ob(s3.entails_eq(x, I(want)), 'a reply %s' % what, h.where, show(x))
        ro, pa, off, n = ip.slice_of(s, r, None)
        ro2, pa2, off2, n2 = ip.slice_of(s, new[1], None)
        c.ob((ro, pa) == (ro2, pa2) and s.entails_eq(off, off2), 'a reply is the encoded message, from its start', h.where, 'replies with %s' % show(r))
        if fin is None:
            c.ob(False if drop is None else None, 'a reply is a finished message', h.where, 'the encoder is not finished')
            continue
        if fin[1] == 'ok':
            c.ob(s.entails_eq(n, fin[2]), 'a reply consists of exactly the encoded bytes', h.where, '%s bytes' % show(n))
        else:
            c.ob(s.entails_eq(n, n2), 'a truncated reply is the whole buffer', h.where, '%s bytes' % show(n))
    c = c0
    trunc = [1 for s, v in h.res if isinstance(h.reply(v), T) and (last(chain(s.ev), 'enc.finish') or (0, 0))[1] == 'err']
    c.ob(len(trunc) > 0, 'a truncated reply is sent, too', h.where, 'no reply when the encoder reports truncation')


HEADER = [('id', 'id', None), ('is_response', 'has the response bit set', 1), ('is_authority', 'has the authoritative-answer bit set', 1),
          ('opcode', 'has opcode QUERY', 0), ('rcode', 'has response code NO_ERROR', 0)]

# ---- the listening loops (C15, C16, C26)
LISTEN = [('uwuhi::service::advertising::SyncAdvertiser::listen_blocking', 'handle', 'uwuhi'),
          ('uwuhi_async::service::advertising::AsyncAdvertiser::listen', 'handle', 'uwuhi_async'),
          ('uwuhi::tap::SyncTap::listen', 'dec.new', 'uwuhi')]


def handle_summary(ip, p):
    """Advertiser::handle_packet: an error, no reply, or a reply (C13, C14, C15)"""
    bs = p.npath.get(HP) or []
    for b in bs:
        ip.summaries[b['id']] = handled
    return bool(bs)


def handled(c, st, args):
    ip = c.ip
    f = ip.p.fields
    ct, off, n = ip.slice_content(st, args[1])
    ip.emit(st, 'handle', ip.subseq(st, ct, off, n), n)
    res = []
    e = st.copy()
    ip.emit(e, 'handled', 'err')
    res.append((e, models.err(c.dty, models.fresh(c, e, 'handle.err', f(c.dty, 1)[0]))))
    e = st.copy()
    oty = f(c.dty, 0)[0]
    ip.emit(e, 'handled', 'none')
    res.append((e, models.ok(c.dty, models.none(oty))))
    sl = models.fresh(c, st, 'reply', f(oty, 1)[0])
    ct, off, n = ip.slice_content(st, sl)
    ip.emit(st, 'handled', 'some', ip.subseq(st, ct, off, n), n)
    res.append((st, models.ok(c.dty, models.some(oty, sl))))
    return res


def newdec_summary(ip, p):
    for b in p.npath.get(PK + 'decoder::MessageDecoder::new') or []:
        ip.summaries[b['id']] = lambda c, st, args, b=b: newdec(c, st, args, b)


def newdec(c, st, args, b):
    ct, off, n = c.ip.slice_content(st, args[0])
    c.ip.emit(st, 'dec.new', c.ip.subseq(st, ct, off, n), n)
    return c.ip.invoke(st, c.fr, b, args, c.site)


class Listen:
    def __init__(self, c, crate, path, item):
        self.c = c
        self.p = p = c.prog(crate)
        self.b = fn(p, path)
        self.ip = ip = svc_interp(c, p)
        self.item = item
        if item == 'handle':
            if not handle_summary(ip, p):
                raise Unknown('Advertiser::handle_packet is not called')
        else:
            newdec_summary(ip, p)
        self.args, self.res = run_any(ip, self.b)
        c.account(ip)
        self.where = loc(self.b)
        # straight pieces of history: (state, events since the last loop head, is it an exit?, returned value)
        self.runs = []
        for m, recs in ip.loops.items():
            if not isinstance(m, tuple):
                for r in recs or []:
                    evs = list(r.evs)
                    if not self.receives(m):
                        # an inner loop: since the last head of a receiving one
                        e2 = chain(r.back.ev)
                        cut = max([i for i, e in enumerate(e2) if e.op == 'loop' and self.receives(e)] + [-1])
                        evs = e2[cut + 1:]
                    self.runs.append((r.back, evs, None, m))
        for s, v in self.res:
            evs = chain(s.ev)
            cut = max([i for i, e in enumerate(evs) if e.op == 'loop' and self.receives(e)] + [-1])
            self.runs.append((s, evs[cut + 1:], v, None))

    def receives(self, m):
        return any(kind(e) == 'recv' for r in self.ip.loops.get(m) or [] for e in r.evs)


_listen = {}


def listen(c, crate, path, item, parts):
    key = (id(c), path)
    L = _listen.get(key)
    if L is None:
        L = _listen[key] = Listen(c, crate, path, item)
    if 'C16' in parts:
        c16_one(c, L)
    if 'C26' in parts:
        c26_one(c, L)
    if 'C15' in parts:
        c15_sends(c, L)
    if 'C14' in parts:
        c14_handled(c, L)


def c16_one(c0, L):
    rec = 0
    for s, evs, v, m in L.runs:
        c = Soft(c0, L.ip, s)
        rec += sum(kind(e) == 'recv' for e in evs)
        if v is None:
            continue
        k = last(evs, 'recv', 'send', 'handle', 'handled', 'dec.new', 'dec.err', 'dec.entry', 'name')
        sock = [e.a[1] for e in evs if e.op == 'ev' and e.a[1][0] in ('recv', 'send')]
        got = [e for e in sock if e[0] == 'recv' and e[2][0] == 'ok']
        fail = bool(sock) and (sock[-1][2][0] == 'err' if sock[-1][0] == 'recv' else 'err' in sock[-1])
        if fail:
            c.ob(True, 'the service ends only when a socket operation fails', L.where, '')
        elif not got and not any(e.op == 'loop' for e in chain(s.ev)):
            # setting up the socket failed
            c.ob(True if is_err(v) else False, 'the service ends only when a socket operation fails', L.where, 'returns %s without receiving anything' % show(v)[:80])
        else:
            what = 'a received packet' if got else 'no failure'
            c.ob(False, 'the service ends only when a socket operation fails', L.where, 'returns %s after %s (%s)' % (show(v)[:80], what, '' if k is None else k[0]))
    c0.ob(rec > 0, 'the service receives packets', L.where, 'no receive found')
    for k, stack, span, s in L.ip.panics:
        evs = chain(s.ev)
        if any(kind(e) in ('recv', 'handle', 'dec.new') for e in evs):
            inside = [f for f in stack if 'decoder::' in str(f)] if stack else []
            c.ob(None, 'a packet makes the service panic', '%s: %s' % (L.where, span), k)


def c26_one(c0, L):
    want = bufsize(c0)
    ip = L.ip
    n = 0
    for s, evs, v, m in L.runs:
        c = Soft(c0, L.ip, s)
        cur = None
        for e in evs:
            if kind(e) == 'recv':
                x = e.a[1]
                c.ob(s.entails(addc(x[3], -want)), 'a datagram is received into a buffer of MDNS_BUFFER_SIZE', L.where, 'buffer of %s bytes' % show(s.norm(x[3])))
                cur = x[2] if x[2][0] == 'ok' else None
            elif kind(e) == L.item:
                whole(c, ip, s, e.a[1], cur, L.where)
                n += 1
    c0.ob(n > 0, 'received datagrams are processed', L.where, '')


def whole(c, ip, s, ev, cur, where):
    rule = 'exactly the received bytes are decoded'
    if cur is None:
        c.ob(False, rule, where, 'data is decoded that was not received')
        return
    _, pkt, ln, ad = cur
    n = ev[2]
    c.ob(s.entails_eq(n, ln), rule, where, '%s bytes of %s received' % (show(s.norm(n)), show(ln)))
    ps = parts_of(ip, s, ev[1])
    ps = [x for x in ps if not (x[0] == 'span' and s.entails_eq(x[3], I(0)))]
    good = len(ps) == 1 and ps[0][0] == 'span' and ps[0][1] is pkt and s.entails_eq(ps[0][2], I(0))
    if not good and s.entails_eq(n, ln) and not any(pkt in subterms(x[1]) for x in ps):
        good = False if all(x[0] == 'span' for x in ps) else None
    c.ob(True if good else (False if good is False and ps else None), rule, where, 'decodes %s' % show(ev[1])[:120])


def bufsize(c):
    for x in c.prog('uwuhi').d['consts']:
        if x['path'] == 'uwuhi::MDNS_BUFFER_SIZE':
            return int(x['v']['int'])
    raise NoAnchor('no constant uwuhi::MDNS_BUFFER_SIZE')


def sends_in(L, m):
    return any(kind(e) == 'send' for r in L.ip.loops.get(m) or [] for e in r.evs)


def c15_sends(c0, L):
    ip = L.ip
    sends = 0
    for s, evs, v, m in L.runs:
        c = Soft(c0, L.ip, s)
        cur = rep = None
        vague = False
        for e in evs:
            vague = vague or (e.op == 'loop' and sends_in(L, e))
            x = e.a[1] if e.op == 'ev' else None
            if kind(e) == 'recv':
                cur = x[2] if x[2][0] == 'ok' else None
            elif kind(e) == 'handled':
                rep = x if x[1] == 'some' else None
            elif kind(e) == 'send':
                sends += 1
                if vague:
                    c.ob(None, 'only replies are sent', L.where, 'sent in or after a loop')
                    continue
                if rep is None:
                    c.ob(False, 'only replies are sent', L.where, 'sends %s' % show(x[2])[:100])
                    continue
                c.ob(cur is not None and addr_is(s, x[3], cur[3]), 'a reply is sent to whoever asked', L.where, 'sent to %s, asked by %s' % (show(x[3])[:80], show(cur[3])[:60] if cur else '?'))
                same = x[2] is rep[2] or (s.entails_eq(x[6], rep[3]) and parts_of(ip, s, x[2]) == parts_of(ip, s, rep[2]))
                c.ob(same, 'a reply is sent as it is', L.where, 'sends %s' % show(x[2])[:100])
                rep = None
        if rep is not None and v is None and L.receives(m):
            c.ob(None if vague else False, 'a reply is sent', L.where, 'a reply is made and not sent')
    c0.ob(sends > 0, 'replies are sent', L.where, 'nothing is ever sent')


def addr_is(s, a, ad):
    for _ in range(4):
        if a is ad:
            return True
        if a.op in ('sockaddr', 'copy') or (a.op == 'agg' and len(a.a[2]) == 1):
            a = a.a[0] if a.op != 'agg' else a.a[2][0]
        else:
            break
    return a is ad


def c14_handled(c0, L):
    for s, evs, v, m in L.runs:
        c = Soft(c0, L.ip, s)
        got = None
        for e in evs:
            if kind(e) == 'recv' and e.a[1][2][0] == 'ok':
                got = e.a[1][2]
            elif kind(e) == L.item:
                got = None
        if got is not None and v is None and L.receives(m):
            short = s.entails(addc(mulc(got[2], -1), 11))
            c.ob(True if short else False, 'every query received is looked at', L.where, 'a received datagram is passed over')
    c0.ob(True, 'every query received is looked at', L.where, '')


def c16(c):
    """Every way out of the listening loops is followed back to the last event on it: it must be a failed receive or send. What the loops call for a packet is
    summarised by all its outcomes, errors included (advertisers: handle_packet; tap: the decoder itself)."""
    for path, item, crate in LISTEN:
        c.group(path, listen, c, crate, path, item, ('C16',))


def c26(c):
    """At each receive the buffer's length is compared with MDNS_BUFFER_SIZE; what reaches the decoder must be the span [0, number of bytes received) of that very
    datagram."""
    for path, item, crate in LISTEN:
        c.group(path, listen, c, crate, path, item, ('C26',))


PROPS = {'C13': c13, 'C14': c14, 'C15': c15, 'C16': c16, 'C26': c26}
