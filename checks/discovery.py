"""The resolvers and discoverers: C18, C19, C20, C21, C22, C25, C28 and their part of C16 and C26."""
from base import *
from util import *
import wire, names, decoding, services
from wire import PK
from absenc import encoder_summary, decoder_summary, run_any, chain, kind, last, ENC
from decoding import run, on_value, uniq
from interp import CallCtx, Frame, Unsupported
from services import svc_interp, tyof, is_, is_err, DN, REC, newdec_summary, bufsize, addr_is

RR = PK + 'decoder::ResourceRecord'
RES = {'uwuhi': 'uwuhi::resolver::SyncResolver', 'uwuhi_async': 'uwuhi_async::resolver::AsyncResolver'}
DIS = {'uwuhi': 'uwuhi::service::discovery::SyncDiscoverer', 'uwuhi_async': 'uwuhi_async::service::discovery::AsyncDiscoverer'}


def as_enum_summary(ip, p):
    """as_enum: not a known record type, an error, or any record (C08, C10 say which)"""
    n = 0
    for b in p.d['bodies']:
        if b['body'] is not None and b.get('item') == 'as_enum' and npath(b['path']) == RR + '::as_enum':
            ip.summaries[b['id']] = as_enum
            n += 1
    return n


def as_enum(c, st, args):
    ip = c.ip
    pl = ip.deref(st, args[0], None)
    rec = ip.load(st, pl.root, pl.path)
    f = ip.p.fields
    rty = f(c.dty, 1)[0]
    ety, kty = f(rty, 1)[0], f(rty, 0)[0]
    res = []
    e = st.copy()
    ip.emit(e, 'record', 'none', None, rec)
    res.append((e, models.none(c.dty)))
    e = st.copy()
    ip.emit(e, 'record', 'err', None, rec)
    res.append((e, models.some(c.dty, models.err(rty, models.fresh(c, e, 'rec.err', ety)))))
    for i, v in enumerate(ip.p.types[kty]['v']):
        e = st.copy()
        pay = tuple(models.fresh(c, e, 'rec.' + v['n'], t) for t in f(kty, i))
        r = mk('agg', kty, i, pay, ty=kty)
        ip.emit(e, 'record', v['n'], r, rec)
        if v['n'] in e.ghost:
            e.ghost[v['n']] = True
        res.append((e, models.some(c.dty, models.ok(rty, r))))
    return res


SVC = 'uwuhi::service::'
PARSE = {SVC + 'ServiceInstance::from_ptr': 'PTR', SVC + 'Service::from_ptr': 'PTR', SVC + 'InstanceDetails::from_srv': 'SRV', SVC + 'TxtRecords::from_txt': 'TXT',
         DN + '::from_str': 'str', '<%s as std::str::FromStr>::from_str' % DN: 'str'}


def parse_summary(ip, p):
    """what records are parsed into (C23, C24) and names from text (C29): an error or anything"""
    for b in p.d['bodies']:
        k = PARSE.get(npath(b['path'])) if b['body'] is not None and '{closure' not in b['path'] else None
        if k:
            ip.summaries[b['id']] = lambda c, st, args, k=k: parsed(c, st, args, k)


def parsed(c, st, args, k):
    ip = c.ip
    a = args[0]
    if k == 'str':
        ct, off, n = ip.slice_content(st, a)
        a = ip.subseq(st, ct, off, n)
    elif a.op == 'ref':
        a = ip.load(st, a.a[0], a.a[1])
    if ip.p.types[c.dty].get('path') != 'std::result::Result':
        v = models.fresh(c, st, 'parsed.' + k, c.dty)
        ip.emit(st, 'parse', k, a, v, c.dty)
        return [(st, v)]
    okt, ert = ip.p.fields(c.dty, 0)[0], ip.p.fields(c.dty, 1)[0]
    e = st.copy()
    er = models.fresh(c, e, 'parse.err', ert)
    ip.emit(e, 'parse', k, a, None, okt)
    v = models.fresh(c, st, 'parsed.' + k, okt)
    ip.emit(st, 'parse', k, a, v, okt)
    return [(st, models.ok(c.dty, v)), (e, models.err(c.dty, er))]


class Client:
    """one run of a function that sends a query and waits for the answers, on arbitrary packets"""
    def __init__(self, c, crate, path):
        self.c = c
        self.p = p = c.prog(crate)
        self.crate = crate
        self.b = fn(p, path)
        self.ip = ip = svc_interp(c, p, rotate=1)
        decoder_summary(ip, p, True)
        as_enum_summary(ip, p)
        parse_summary(ip, p)
        newdec_summary(ip, p)
        self.item = 'dec.new'
        st = State()
        if path.endswith('load_instance_details'):
            st.ghost['TXT'] = False
        self.args, self.res = run_any(ip, self.b, st=st)
        c.account(ip)
        self.where = loc(self.b)
        self.path = path
        self.loops = {m: recs for m, recs in ip.loops.items() if not isinstance(m, tuple) and recs}
        # which loops run inside which: a loop on the way of an iteration of another
        self.parent = {}
        for m, recs in self.loops.items():
            for r in recs:
                for e in r.evs:
                    if e.op == 'loop' and e is not m:
                        self.parent.setdefault(e, m)
        self.runs = []
        for m, recs in self.loops.items():
            for r in recs:
                self.runs.append((r.back, self.since(chain(r.back.ev)) if not self.receives(m) else list(r.evs), None, m))
        for s, v in self.res:
            self.runs.append((s, self.since(chain(s.ev)), v, None))

    def since(self, evs):
        cut = max([i for i, e in enumerate(evs) if e.op == 'loop' and self.receives(e)] + [-1])
        return evs[cut + 1:]

    def receives(self, m):
        return any(kind(e) == 'recv' for r in self.loops.get(m) or [] for e in r.evs)

    def has(self, m, *kinds, seen=()):
        """does the loop, or a loop inside it, do one of these things?"""
        for r in self.loops.get(m) or []:
            for e in r.evs:
                if kind(e) in kinds or (e.op == 'loop' and e is not m and e not in seen and self.has(e, *kinds, seen=seen + (m,))):
                    return True
        return False

    def soft(self, s):
        return Soft(self.c, self.ip, s)


_clients = {}


def client(c, crate, path):
    k = (id(c), path)
    if k not in _clients:
        _clients[k] = None
        _clients[k] = Client(c, crate, path)
    if _clients[k] is None:
        raise Unknown('this function was not analysed')
    return _clients[k]


RESOLVE = [(cr, t + '::' + f) for cr, t in RES.items() for f in ('resolve_domain', 'resolve')]
DISCOVER = [(cr, t + '::' + f) for cr, t in DIS.items() for f in ('load_instance_details', 'discover_instances', 'discover_service_types')]


def each(c, which, f):
    for crate, path in which:
        L = c.group(path, client, c, crate, path)
        if L is not None:
            use(L.p)
            c.group(path, f, c, L)


# ---- C16, C26 -----------------------------------------------------------------------------------
def failed(e):
    x = e.a[1]
    return (x[0] == 'recv' and x[2][0] == 'err') or (x[0] == 'send' and 'err' in x) or x[0] == 'timer'


def c16_client(c0, L):
    n = 0
    for s, evs, v, m in L.runs:
        n += sum(kind(e) == 'recv' for e in evs)
        if v is None or not is_err(v):
            continue
        sock = [e for e in evs if kind(e) in ('recv', 'send', 'timer', 'elapsed')]
        if not sock:
            continue
        c = L.soft(s)
        k = last(evs, 'recv', 'dec.new', 'dec.err', 'dec.entry', 'record', 'parse')
        c.ob(failed(sock[-1]) or kind(sock[-1]) == 'elapsed', 'a packet that cannot be used does not end the wait', L.where, 'fails with %s after a received packet (%s)' % (show(v)[:80], k[0] if k else ''))
    c0.ob(n > 0, 'answers are received', L.where, 'no receive found')


# ---- C18 ----------------------------------------------------------------------------------------
def grown(L, t):
    """how a value carried round a loop changes: (marker, [(LoopRec, value at the end)], [(entry state, value)])"""
    ip = L.ip
    for m, recs in L.loops.items():
        for r in recs:
            for k, v in r.head.mem.items():
                path = find_path(v, t)
                if path is None:
                    continue
                out = []
                for q in recs:
                    if k not in q.head.mem or k not in q.back.mem:
                        continue
                    h = walk(ip, q.head, q.head.mem[k], path)
                    out.append((q, h, walk(ip, q.back, q.back.mem[k], path)))
                ini = [(s, walk(ip, s, s.mem[k], path)) for s in ip.loop_init.get(m, []) if k in s.mem]
                return m, [(q, b) for q, h, b in out if h is t], ini, [(q, h, b) for q, h, b in out if h is not t]
    return None


def always_empty(L, t, seen=()):
    """is the content t, carried round a loop, empty whenever the loop is entered again?"""
    if t in seen:
        return True
    g = grown(L, t)
    if g is None:
        return None
    m, recs, ini, other = g
    for s, v in ini + [(q.back, b) for q, b in recs] + [(q.back, b) for q, h, b in other]:
        if s.entails_eq(L.ip.length(v), I(0)):
            continue
        r = empty_parts(L, s, v, seen + (t,))
        if r is not True:
            return r
    return True


def empty_parts(L, s, v, seen):
    for x in parts_of(L.ip, s, v):
        if x[0] == 'one':
            return False
        if s.entails_eq(x[3], I(0)):
            continue
        if x[1].op != 'phi':
            return False
        g = grown(L, x[1])
        if g is None:
            return None
        if any(b is not x[1] and parts_of(L.ip, q.back, b)[-1][0] == 'one' for q, b in g[1]):
            return False
        r = always_empty(L, x[1], seen)
        if r is not True:
            return r
    return True


def list_of(ip, s, v):
    """the contents an Ok value of the resolver iterates: (content, off, len)"""
    for x in sorted(subterms(v), key=lambda t: t.id):
        if x.op == 'iter' and x.a[0] == 'slice':
            ct = ip.load(s, x.a[1], x.a[2])
            return ct, x.a[3], sub(x.a[4], x.a[3])
        if x.op == 'iter' and x.a[0] == 'own':
            return x.a[1], x.a[2], sub(x.a[3], x.a[2])
    for x in sorted(subterms(v), key=lambda t: t.id):
        if x.op == 'vec':
            return x.a[0], I(0), ip.length(x.a[0])
    raise Unknown('the list of addresses returned')


def is_address(L, s, v, rec):
    """v is the address record rec (a Record variant) holds, as IpAddr"""
    ip, p = L.ip, L.p
    if rec is None or v.op != 'agg' or v.a[1] not in (0, 1):
        return None
    want = {0: 'A', 1: 'AAAA'}[v.a[1]]
    if variant(p, rec) != want:
        return False
    pay = rec.a[2][0]
    n = 4 if want == 'A' else 16
    got = octets(ip, s, v.a[2][0], n)
    b = fn(p, PK + 'records::%s::addr' % want)
    root, ref = on_value(ip, s2 := s.copy(), pay, 'pay')
    for s3, x in run(ip, s2, b, [ref], 'addr'):
        if x.op == 'ref':
            x = ip.load(s3, x.a[0], x.a[1])
        exp = octets(ip, s3, x, n)
        if got is None or exp is None:
            return None
        return all(s3.entails_eq(g, e) for g, e in zip(got, exp))
    return None


def octets(ip, s, v, n):
    """the bytes of an address value"""
    for _ in range(5):
        t = ip.p.types[v.ty] if v.ty is not None else {}
        if t.get('k') == 'array':
            return [ip.proj(s, v, ('i', I(i))) for i in range(n)]
        if v.op == 'agg' and len(v.a[2]) == 1:
            v = v.a[2][0]
        elif t.get('k') == 'struct' and len(ip.p.fields(v.ty)) == 1:
            v = ip.proj(s, v, ('f', None, 0, ip.p.fields(v.ty)[0]))
        else:
            break
    if v.op in ('seq', 'wr', 'rep', 'upd') or v.ty is not None and ip.p.tk(v.ty) == 'array':
        return [ip.proj(s, v, ('i', I(i))) for i in range(n)]
    return None


def variant(p, rec):
    return p.types[rec.ty]['v'][rec.a[1]]['n']


def record_before(evs, stop=None):
    """(section, record) of the last record read in a piece of history"""
    sec = rec = None
    for e in evs:
        if kind(e) == 'dec.entry':
            sec, rec = e.a[1][1], None
        elif kind(e) == 'record' and e.a[1][1] not in ('none', 'err'):
            rec = e.a[1][2]
    return sec, rec


def c18_one(c0, L):
    ip = L.ip
    good = 0
    for s, v in L.res:
        if is_err(v):
            continue
        c = L.soft(s)
        if not is_(v, 0):
            raise Unknown('the outcome ' + show(v)[:80])
        good += 1
        evs = chain(s.ev)
        i = max([i for i, e in enumerate(evs) if kind(e) == 'recv'] + [-1])
        if i < 0 or evs[i].a[1][2][0] != 'ok':
            c.ob(False, 'addresses come from a received packet', L.where, 'returns addresses without a packet')
            continue
        pkt = evs[i].a[1][2]
        tail = evs[i + 1:]
        ct, off, n = list_of(ip, s, v)
        if not possible(L, s, ct, [e for e in tail if e.op == 'loop']):
            continue
        c.ob(s.entails(addc(n, -1)), 'an answer without addresses is no result', L.where, 'returns %s addresses' % show(s.norm(n)))
        # the response bit
        q = services.bit(s, ip.proj(s, pkt[1], ('i', I(2))), 7, 1)
        c.ob(s.entails_eq(q, I(1)), 'only responses are evaluated', L.where, 'returns addresses of a packet whatever its response bit')
        # no error on the way
        err = [e for e in tail if kind(e) == 'dec.err' or (kind(e) == 'record' and e.a[1][1] == 'err')]
        ms = [e for e in tail if e.op == 'loop']
        for m in ms:
            err += [e for r in L.loops.get(m) or [] for e in r.evs if kind(e) == 'dec.err' or (kind(e) == 'record' and e.a[1][1] == 'err')]
        c.ob(not err, 'a packet that does not decode yields no addresses', L.where, 'returns the addresses of a packet after an error in it')
        ends = [e.a[1][1] for e in tail if kind(e) == 'dec.end']
        c.ob('Answer' in ends, 'a packet that does not decode yields no addresses', L.where, 'the answer section is not read to its end')
        # what is returned
        try:
            drained(c, L, s, v.a[2][0], ct, off)
        except (Unsupported, Unknown, AttributeError, KeyError, TypeError) as e:
            c.ob(None, ALL, L.where, 'iterator: %s' % e)
        used = gather(c, L, s, ct, off, n, ms)
        # does it matter whether the packet answers the query?
        deps = dep_terms(s)
        byid = any(t.op == 'elem' and t.a[0] is pkt[1] and t.a[1] in (I(0), I(1)) for t in deps)
        byname = any(t.op == 'nameeq' for t in deps) or any(t.op == 'nameeq' for m in ms for r in L.loops.get(m) or [] for t in dep_terms(r.back))
        c.ob(byid or byname, 'packets that do not answer the query are ignored', L.path, 'a response is accepted whatever its ID and whatever names its records have')
    c0.ob(good > 0, 'addresses are returned', L.where, 'no outcome returns addresses')


def replaced(v, old, new):
    if v is old:
        return new
    if v.op == 'agg':
        return mk('agg', v.a[0], v.a[1], tuple(replaced(x, old, new) for x in v.a[2]), ty=v.ty)
    return v


def drained(c, L, s, v, ct, off):
    """wherever the returned iterator stands, the next thing it produces is the address there"""
    ip = L.ip
    s = s.copy()
    # some address of the list, and the iterator when it has come there
    at = mk('sym', uniq('place'))
    its = [x for x in subterms(v) if x.op == 'iter' and x.a[0] in ('slice', 'own')]
    if len(its) != 1:
        raise Unknown('the iterator returned')
    k = 3 if its[0].a[0] == 'slice' else 2
    pos, end = its[0].a[k], its[0].a[k + 1]
    if not (s.add_ge0(sub(at, pos)) and s.add_ge0(addc(sub(end, at), -1))):
        return
    v = replaced(v, its[0], mk('iter', *its[0].a[:k], at, end, ty=its[0].ty))
    first = s.norm(ip.elem(s, ct, add(off, sub(at, pos))))

    def same(s2, x):
        if x.op == 'ref':
            x = ip.load(s2, x.a[0], x.a[1])
        return s2.norm(x) is s2.norm(first)
    ty = v.ty
    root = ('T', mk('sym', uniq('result')), 0, 'result')
    s.mem[root] = v
    cc = CallCtx(ip, {'path': 'next', 'name': 'next', 'i': None, 'args': []}, [], [], None, (Frame(mk('sym', uniq('caller')), fn(L.p, L.path), None, None), uniq('next'), None), None)
    if v.op == 'agg' and v.ty is not None and len(v.a[2]) == 2 and (L.p.types[v.ty].get('path') or '').split('::')[-1] in ('Filter', 'TakeWhile', 'SkipWhile'):
        skip = L.p.types[v.ty]['path'].endswith('SkipWhile')
        fs = L.p.fields(ty)
        for s2, x in models.iter_next(cc, s, root, (('f', None, 0, fs[0]),), fs[0]):
            if x is None:
                continue
            tmp = ('T', mk('sym', uniq('item')), 0, 'item')
            s2.mem[tmp] = x
            f = v.a[2][1]
            for s3, r in ip.call_value(s2, cc.site[0], mk('ref', root, (('f', None, 1, fs[1]),)) if f.op == 'agg' else f, [mk('ref', tmp, ())], None, cc.site):
                q = s3.copy()
                if q.assume(r, skip):
                    Soft(c.c, ip, q, r).ob(False, ALL, L.where, 'passes over an address')
                else:
                    c.ob(same(s3, x), ALL, L.where, 'produces %s there' % show(x)[:60])
        return
    for s2, x in models.iter_next(cc, s, root, (), ty):
        q = s2.copy()
        if x is None:
            Soft(c.c, ip, q).ob(False, ALL, L.where, 'returns no address though there are some')
        elif not same(s2, x):
            Soft(c.c, ip, q, x).ob(False, ALL, L.where, 'produces %s there' % show(x)[:60])
        else:
            c.ob(True, ALL, L.where)


def possible(L, s, ct, ms):
    """can this outcome occur, when what is always empty at the head of the receive loop is empty?"""
    for x in parts_of(L.ip, s, ct):
        if x[0] == 'span' and x[1].op == 'phi':
            g = grown(L, x[1])
            if g is not None and g[0] not in ms and always_empty(L, x[1]) is True:
                s2 = s.copy()
                if not s2.add_eq0(L.ip.length(x[1])):
                    return False
    return True


def gather(c, L, s, ct, off, n, ms, depth=4):
    """the parts of the returned list"""
    ip = L.ip
    rule = 'only addresses of A and AAAA records of the answer section are returned, as they are'
    old = 'addresses of earlier packets and calls are not returned'
    c.ob(s.entails_eq(off, I(0)) and s.entails_eq(n, ip.length(ct)), ALL, L.where, 'returns %s from number %s' % (show(n)[:60], show(off)[:60]))
    work, seen = [(s, ct)], set()
    while work:
        s1, t = work.pop()
        if t in seen:
            continue
        seen.add(t)
        for x in parts_of(ip, s1, t):
            if x[0] == 'one':
                sec, rec = record_before(chain(s1.ev))
                good = is_address(L, s1, x[1], rec)
                c.ob(good if good is not True else sec == 'Answer', rule, L.where, 'returns %s (%s section)' % (show(x[1])[:80], sec))
                continue
            if s1.entails_eq(x[3], I(0)) or s1.entails_eq(ip.length(x[1]), I(0)):
                continue
            if x[1].op == 'edited':
                c.ob(False, ALL, L.where, 'returns them after %s' % x[1].a[0])
                continue
            g = grown(L, x[1]) if x[1].op == 'phi' else None
            if g is None:
                c.ob(False if x[1].op in ('deref', 'fld', 'cont', 'sym') else None, old, L.where, 'returns %s' % show(x[1])[:80])
                continue
            m, recs, ini, other = g
            if m not in ms:
                e = always_empty(L, x[1])
                c.ob(e, old, L.where, 'the list is not empty when a packet is decoded')
                continue
            whole = [(q, x[1], b) for q, b in recs] + other
            for q, h, b in whole:
                walk_rec(c, L, q, h, b, rule)
            for s2, v2 in ini:
                work.append((s2, v2))
    return True


ALL = 'all addresses of the response are returned, in order'


def walk_rec(c0, L, q, h, b, rule):
    ip, s = L.ip, q.back
    c = L.soft(s)
    hp, bp = parts_of(ip, q.head, h), parts_of(ip, s, b)
    hp = [x for x in hp if not (x[0] == 'span' and s.entails_eq(x[3], I(0)))]
    bp = [x for x in bp if not (x[0] == 'span' and s.entails_eq(x[3], I(0)))]
    sec, rec = record_before(q.evs)
    isaddr = rec is not None and variant(L.p, rec) in ('A', 'AAAA') and sec == 'Answer'
    if len(bp) >= len(hp) and same_parts(s, bp[:len(hp)], hp):
        new = bp[len(hp):]
        for x in new:
            good = is_address(L, s, x[1], rec) if x[0] == 'one' else None
            c.ob(good if good is not True else sec == 'Answer', rule, L.where, 'returns %s (%s section)' % (show(x[1])[:80], sec))
        if isaddr:
            c.ob(len(new) == 1, ALL, L.where, 'an %s record contributes %d addresses' % (variant(L.p, rec), len(new)))
        return
    ed = [x[1].a[0] for x in bp if x[0] == 'span' and x[1].op == 'edited']
    c.ob(False if ed else None, ALL, L.where, 'the list becomes %s' % show(b)[:100])


# ---- the configured times -----------------------------------------------------------------------
SETTERS = {'resolve': 'set_timeout', 'wait': 'set_retransmit_timeout', 'total': 'set_discovery_timeout'}


def setter_path(c, crate, ty, item):
    """where a setter leaves its argument in self: (path, None), or (None, events) when it leaves it somewhere else"""
    p = c.prog(crate)
    b = fn(p, ty + '::' + item)
    ip = svc_interp(c, p)
    args, res = run_any(ip, b)
    c.account(ip)
    paths = set()
    for s, v in res:
        if is_err(v):
            continue
        path = find_path(ip.load(s, ('S', args[0]), ()), args[1], 4)
        paths.add(path)
    if len(paths) == 2 and None in paths:
        # kept only sometimes
        paths.discard(None)
        path = min(paths)
        for s, v in res:
            if not is_err(v):
                x = ip.load(s, ('S', args[0]), path)
                Soft(c, ip, s, x).ob(x is args[1], 'a setter keeps the time it is given', loc(b), 'keeps %s' % show(x)[:80])
    if len(paths) != 1:
        raise Unknown('where %s keeps its argument' % item)
    return paths.pop(), (b, ip, args, res)


def configured(c, L, ty, item):
    """the configured time as a value of the run L"""
    k = ('conf', id(c), L.crate, ty, item)
    if k not in _clients:
        _clients[k] = setter_path(c, L.crate, ty, item)[0]
    path = _clients[k]
    if path is None:
        return None
    return lambda s: L.ip.load(s, ('S', L.args[0]), path)


# ---- C19 ----------------------------------------------------------------------------------------
def timeout_set(e):
    """the timeout an event sets: a value, None for no limit, False if it sets none"""
    x = e.a[1]
    if e.op != 'ev' or not str(x[0]).startswith('opt.') or 'read_timeout' not in x[0]:
        return False
    a = [y for y in x[2:] if isinstance(y, T) and y.op == 'agg' and y.a[1] in (0, 1)]
    for y in x[1:]:
        if isinstance(y, tuple):
            a += [z for z in y if isinstance(z, T) and z.op == 'agg']
    if not a:
        return False
    return a[0].a[2][0] if a[0].a[1] == 1 and a[0].a[2] else None


def c19_methods(c, crate, ty):
    """constructors and setters of a type with a blocking socket"""
    p = c.prog(crate)
    bs = [b for b in p.d['bodies'] if b['body'] is not None and b.get('dk') == 'AssocFn' and npath(b['path']).rsplit('::', 1)[0] == ty and b.get('vis') == 'pub']
    if not bs:
        raise NoAnchor('no type ' + ty)
    for b in bs:
        if b['item'] in ('resolve', 'resolve_domain') or b['item'] in [x.rsplit('::', 1)[1] for _, x in DISCOVER]:
            continue
        c.group(ty + '::' + b['item'], c19_method, c, crate, ty, b)


def c19_method(c0, crate, ty, b):
    p = c0.prog(crate)
    ip = svc_interp(c0, p)
    parse_summary(ip, p)
    args, res = run_any(ip, b)
    c0.account(ip)
    sync = crate == 'uwuhi'
    where = loc(b)
    for s, v in res:
        c = Soft(c0, ip, s)
        sets = [(e, timeout_set(e)) for e in chain(s.ev) if timeout_set(e) is not False]
        for e, t in sets:
            c.ob(t is not None, 'no socket is left without a timeout', where, 'sets no read timeout')
        for e in chain(s.ev):
            if e.op == 'ev' and str(e.a[1][0]).startswith('opt.') and 'nonblocking' in e.a[1][0]:
                c.ob(None, 'no socket is left without a timeout', where, 'changes the blocking mode')
        if is_err(v) or not sync:
            continue
        made = v.op == 'agg' and v.ty is not None and p.types[v.ty].get('path') == 'std::result::Result' and p.types[p.fields(v.ty, 0)[0]].get('path') == ty
        if made:
            good = [e for e, t in sets if t is not None and 'ok' in e.a[1]]
            c.ob(bool(good) or (None if later_set(c0, crate, ty) else False), 'a new socket has a timeout', where, 'returns a socket without a read timeout')
        elif b['item'] in ('set_timeout', 'set_retransmit_timeout'):
            good = [e for e, t in sets if t is args[1] and 'ok' in e.a[1]]
            kept = find_path(ip.load(s, ('S', args[0]), ()), args[1], 4) is not None
            c.ob(True if good else None if kept or sets else False, 'the timeout that is configured is the one that is set', where, 'the timeout given is not set')


def later_set(c, crate, ty):
    """is the timeout set by the functions that wait?"""
    for cr, path in RESOLVE + DISCOVER:
        if cr == crate and path.startswith(ty + '::'):
            L = client(c, crate, path)
            if not any(timeout_set(e) for s, v in L.res for e in chain(s.ev)):
                return False
    return True


def c19_wait(c0, L):
    ip = L.ip
    sync = L.crate == 'uwuhi'
    res = 'esolver' in L.path
    n = 0
    timers = {}
    for s, evs, v, m in L.runs:
        for i, e in enumerate(evs):
            if kind(e) == 'race':
                x = e.a[1]
                nxt = [f for f in evs[i + 1:] if kind(f) in ('timer', 'timer_at', 'recv', 'send', 'await')]
                if nxt and kind(nxt[0]) == 'timer':
                    timers.setdefault((x[2], x[3]), []).append((s, nxt[0].a[1][1]))
    conf = configured(c0, L, L.path.rsplit('::', 1)[0], SETTERS['resolve' if res else 'wait']) if not sync else None
    for s, evs, v, m in L.runs:
        c = L.soft(s)
        for i, e in enumerate(evs):
            if e.op == 'ev' and timeout_set(e) is None:
                c.ob(False, 'no socket is left without a timeout', L.where, 'sets no read timeout')
            if kind(e) == 'await':
                c.ob(None, 'every wait is bounded', L.where, 'waits for something unknown')
            if kind(e) != 'recv':
                continue
            n += 1
            if not sync:
                r = [f for f in evs[:i] if kind(f) in ('race', 'recv', 'timer')]
                if not r or kind(r[-1]) != 'race':
                    c.ob(False, 'every wait is bounded', L.where, 'waits for a packet without racing a timer')
                    continue
                x = r[-1].a[1]
                ts = timers.get((x[2], x[3]))
                if not ts:
                    c.ob(False if ts is None and i > 0 else None, 'every wait is bounded', L.where, 'what a wait is raced against is no timer')
                    continue
                if conf is None:
                    c.ob(None, 'the wait is as long as configured', L.where, 'where the timeout is kept')
                    continue
                for s2, d in ts:
                    w = conf(s2)
                    c.ob(True if d is w else None if w in subterms(d) else False, 'the wait is as long as configured', L.where, 'a timer of %s' % show(d)[:80])
        if not res:
            continue
        # the resolver gives up when a wait has expired
        w = [e for e in evs if kind(e) in ('recv', 'timer', 'send')]
        if w and failed(w[-1]) and kind(w[-1]) != 'send':
            if v is None:
                other = kind(w[-1]) == 'recv' and other_kind(L, s, w[-1].a[1][2][1])
                c.ob(True if other else False, 'an expired wait is an error', L.where, 'waits again after a wait has failed')
            else:
                c.ob(is_err(v), 'an expired wait is an error', L.where, 'returns %s' % show(v)[:80])
        for i, e in enumerate(w[:-1]):
            if kind(e) == 'timer':
                c.ob(False, 'an expired wait is an error', L.where, 'goes on after a wait has expired')
    c0.ob(n > 0, 'answers are waited for', L.where, 'no receive found')


def kinds_of(L):
    for i, t in enumerate(L.p.types):
        if t.get('path') == 'std::io::ErrorKind' and t['k'] == 'enum':
            return i, {v['n']: k for k, v in enumerate(t['v'])}
    return None, {}


def kind_of(L, s, e):
    """the number of the kind of an I/O error"""
    ty, names_ = kinds_of(L)
    return s.norm(L.ip.discr(s, mk('errkind', e, ty=ty), ty))


def kind_no(L, name):
    ty, names_ = kinds_of(L)
    if name not in names_:
        raise Unknown('kinds of I/O errors')
    return L.ip.sdisc(L.p.types[ty], names_[name])


def other_kind(L, s, e):
    """is the error known not to be a timeout?"""
    return could_time_out(L, s, e) is False


def could_time_out(L, s, e):
    """can the I/O error e be an expired wait in state s?"""
    d = kind_of(L, s, e)
    return any(s.truth(eq0(addc(d, -kind_no(L, k)))) is not False for k in ('WouldBlock', 'TimedOut'))


# ---- C20 ----------------------------------------------------------------------------------------
class Deadline:
    """the comparisons of the time elapsed with the discovery timeout"""
    def __init__(self, c, L):
        self.c, self.L = c, L
        self.limit = configured(c, L, L.path.rsplit('::', 1)[0], SETTERS['total'])
        self.clock = {}
        for s, evs, v, m in L.runs:
            for e in chain(s.ev):
                if kind(e) in ('now', 'elapsed'):
                    self.clock[e.a[1][-1] if kind(e) == 'elapsed' else e.a[1][1]] = e

    def parts(self, x, y):
        """x >= y as (start, reading, limit) if it says that the limit since start is reached at the reading"""
        e = self.clock.get(x)
        if e is not None and kind(e) == 'elapsed':
            return e.a[1][1], x, y
        if e is not None and y.op == 'durfn' and y.a[0] == 'add' and y.a[1] in self.clock:
            return y.a[1], x, y.a[2]
        if x.op == 'durfn' and x.a[0] in ('duration_since', 'sub', 'saturating_duration_since') and x.a[1] in self.clock and len(x.a) > 2:
            return x.a[2], x.a[1], y
        return None

    def unsure(self, s):
        """is something known about the time that is not one of these comparisons?"""
        known = [k for k in s.eqc if isinstance(k, T) and k.op == 'durge' and (self.parts(*k.a) or self.parts(k.a[1], k.a[0]))]
        atoms = [a for f in s.facts for a, _ in f[1]] + [k for k in s.eqc if isinstance(k, T)] + [k for k in s.neq if isinstance(k, T)]
        return any(r in self.clock for k in atoms if k not in known for r in subterms(k) | {k})

    def tests(self, s):
        """[(start, reading, limit, reached?)] known in a state"""
        out = []
        for k in s.eqc:
            if not (isinstance(k, T) and k.op == 'durge'):
                continue
            v = 1 if s.entails_eq(k, I(1)) else 0 if s.entails_eq(k, I(0)) else None
            if v is None:
                continue
            r = self.parts(*k.a)
            if r is not None:
                out.append(r + (v == 1,))
                continue
            r = self.parts(k.a[1], k.a[0])
            if r is not None:
                out.append(r + (v == 0,))
        return out

    def guarded(self, s, evs, m, seen=()):
        """is there, going back from the end of evs, a test of the deadline before the last wait? True, False or None"""
        ts = {t[1]: t for t in self.tests(s)}
        for e in reversed(evs):
            if kind(e) == 'recv':
                return False
            if kind(e) in ('elapsed', 'now'):
                r = e.a[1][-1] if kind(e) == 'elapsed' else e.a[1][1]
                if r in ts:
                    t = ts[r]
                    if t[3]:
                        return None
                    return self.start(t, s)
                if kind(e) == 'elapsed' or any(r in subterms(k) for k in s.eqc if isinstance(k, T)):
                    return None
            if e.op == 'loop':
                return self.head(e, seen)
        return self.head(m, seen) if m is not None else False

    def head(self, m, seen):
        if m in seen:
            return True
        L = self.L
        if m not in L.loops:
            return None
        rs = [self.guarded(s0, chain(s0.ev), None, seen + (m,)) for s0 in L.ip.loop_init.get(m, [])]
        rs += [self.guarded(r.back, r.evs, m, seen + (m,)) for r in L.loops[m]]
        return False if False in rs else None if None in rs else True

    def start(self, t, s):
        """the time counts from before the first query"""
        L = self.L
        e = self.clock.get(t[0])
        if e is None:
            return None
        # the same reading is a different event on every path
        def read(x):
            return kind(x) in ('now', 'elapsed') and (x.a[1][-1] if kind(x) == 'elapsed' else x.a[1][1]) is t[0]
        for x in chain(s.ev):
            if read(x):
                return True
            if x.op == 'loop' and (L.has(x, 'recv') or any(read(y) for r in L.loops.get(x) or [] for y in r.evs)):
                return False
            if kind(x) in ('send', 'recv'):
                return False
        return False


def first_sock(L, m, seen=()):
    """what a loop does first with its socket, once entered: a set of 'send', 'recv'"""
    out = set()
    if m in seen:
        return out
    for r in L.loops.get(m) or []:
        out |= first_of(L, list(r.evs), seen + (m,))
    return out


def first_of(L, evs, seen=()):
    out = set()
    for e in evs:
        if kind(e) in ('send', 'recv'):
            return out | {kind(e)}
        if e.op == 'loop':
            out |= first_sock(L, e, seen)
    return out


def c20_one(c0, L):
    ip = L.ip
    sync = L.crate == 'uwuhi'
    D = Deadline(c0, L)
    loads = L.path.endswith('load_instance_details')
    waits = 0
    stops = 0
    for s, evs, v, m in L.runs:
        c = L.soft(s)
        if D.unsure(s):
            c = Unsure(c)
        for i, e in enumerate(evs):
            if kind(e) == 'recv':
                waits += 1
                g = D.guarded(s, evs[:i], m if m is not None and list(L.loops[m][0].evs[:0]) == [] and starts_at(L, m, evs) else last_loop(s, evs))
                c.ob(g, 'the deadline is checked before every wait', L.where, 'waits without checking the discovery time')
        for t in D.tests(s):
            if t[1] not in [e.a[1][-1] for e in evs if kind(e) == 'elapsed'] + [e.a[1][1] for e in evs if kind(e) == 'now']:
                continue
            if D.limit is not None:
                w = D.limit(s)
                c.ob(True if t[2] is w else None if w in subterms(t[2]) else False, 'the limit is the configured discovery time', L.where, 'compared with %s' % show(t[2])[:80])
            else:
                c.ob(None, 'the limit is the configured discovery time', L.where, 'where it is kept')
            if not t[3]:
                continue
            # reached
            at = max(i for i, e in enumerate(evs) if kind(e) in ('elapsed', 'now') and (e.a[1][-1] is t[1] or e.a[1][1] is t[1]))
            after = [kind(e) for e in evs[at + 1:] if kind(e) in ('send', 'recv')]
            stops += 1
            if v is None:
                c.ob(not after and retests(L, D, m, t), 'discovery stops at its deadline', L.where, 'goes on when the discovery time has been reached')
            else:
                c.ob(not after, 'discovery stops at its deadline', L.where, '%s after the discovery time has been reached' % after)
                if not loads:
                    c.ob(is_(v, 0), 'reaching the deadline is a success', L.where, 'returns %s' % show(v)[:80])
        # ends
        if v is not None:
            sock = [e for e in evs if kind(e) in ('recv', 'send', 'timer')]
            if any(t[3] for t in D.tests(s)):
                pass
            elif sock and failed(sock[-1]) and kind(sock[-1]) != 'timer':
                x = sock[-1].a[1]
                c.ob(is_err(v), 'a failing socket is reported', L.where, 'returns %s' % show(v)[:80])
                if x[0] == 'recv' and sync:
                    c.ob(not could_time_out(L, s, x[2][1]), 'an expired wait makes the query be sent again', L.where, 'ends when a wait has expired')
            elif sock and kind(sock[-1]) == 'timer':
                c.ob(False, 'an expired wait makes the query be sent again', L.where, 'ends when a wait has expired')
            elif not sock and not any(e.op == 'loop' and L.has(e, 'recv', 'send') for e in chain(s.ev)):
                c.ob(is_err(v), 'discovery ends at its deadline, when asked to, or on a failure', L.where, 'returns %s without asking' % show(v)[:60])
            else:
                b = stop_asked(L, s, evs)
                c.ob(b, 'discovery ends at its deadline, when asked to, or on a failure', L.where, 'returns %s after a received packet' % show(v)[:60])
        # retransmission
        for i, e in enumerate(evs):
            exp = kind(e) == 'timer' or (kind(e) == 'recv' and sync and e.a[1][2][0] == 'err' and could_time_out(L, s, e.a[1][2][1]))
            if not exp or v is not None:
                continue
            f = first_of(L, evs[i + 1:])
            if not any(kind(x) in ('send', 'recv') for x in evs[i + 1:]):
                f |= first_sock(L, m)
            c.ob(True if f == {'send'} else False if 'recv' in f else None, 'an expired wait makes the query be sent again', L.where, 'waits again without sending the query')
    # the same query to the same server
    sends = sends_of(L)
    if not sends:
        c0.ob(False, 'the query is sent', L.where, 'nothing is sent')
    for s, e in sends:
        c = L.soft(s)
        x = e.a[1]
        srv = server_of(L, s)
        c.ob(addr_is(s, x[3], srv), 'the query is sent to the configured server', L.where, 'sent to %s' % show(x[3])[:80])
        # what was sent before on this path (how the query was built may differ between paths)
        for y in [y.a[1][2] for y in chain(s.ev) if kind(y) == 'send'][:1]:
            enc = all(any(t.op == 'encoded' for t in subterms_or_self(z)) for z in (x[2], y))
            c.ob(True if x[2] is y else None if enc else False, 'the same query is sent again', L.where, 'sends %s' % show(x[2])[:80])
    c0.ob(waits > 0, 'answers are waited for', L.where, 'no receive found')
    c0.ob(True if stops else None, 'discovery stops at its deadline', L.where, 'no comparison with the discovery time found')


class Unsure:
    """obligations on a path that rests on something not understood: it is no proof of a violation"""
    def __init__(self, c):
        self.c = c

    def ob(self, ok, *a):
        return self.c.ob(None if ok is False else ok, *a)


def retests(L, D, m, t, seen=()):
    """does whatever comes next at a loop head look at the time again first?"""
    if m is None or m in seen:
        return False
    runs = [(r.back, list(r.evs)) for r in L.loops[m]]
    for s, v in L.res:
        full = chain(s.ev)
        if m in full:
            runs.append((s, full[full.index(m) + 1:]))
    for s, evs in runs:
        ts = [x[1] for x in D.tests(s) if x[0] is t[0] and x[2] is t[2]]
        for e in evs:
            if kind(e) in ('elapsed', 'now') and any(r is e.a[1][-1] or r is e.a[1][1] for r in ts):
                break
            if kind(e) in ('send', 'recv', 'timer', 'callback'):
                return False
            if e.op == 'loop':
                if not retests(L, D, e, t, seen + (m,)):
                    return False
                break
        else:
            if not evs or kind(evs[-1]) not in ('elapsed', 'now'):
                return False
    return True


def starts_at(L, m, evs):
    return L.receives(m)


def last_loop(s, evs):
    """the loop head a piece of history starts at"""
    full = chain(s.ev)
    k = len(full) - len(evs) - 1
    return full[k] if k >= 0 and full[k].op == 'loop' else None


def sends_of(L):
    out, seen = [], set()
    for s, evs, v, m in L.runs:
        for e in evs:
            if kind(e) == 'send' and e not in seen:
                seen.add(e)
                out.append((s, e))
    return out


def server_of(L, s):
    """the server a discoverer was created for"""
    p = L.p
    sv = L.ip.load(s, ('S', L.args[0]), ())
    ty = tyof(p, L.path.rsplit('::', 1)[0])
    l = list(services.flat(L.ip, s, sv, lambda t: t.get('path', '').endswith('net::SocketAddr'), (), 2, ty))
    if len(l) != 1:
        raise Unknown('the server of the discoverer')
    return l[0][1]


def stop_asked(L, s, evs):
    """does this end come from the callback asking to stop? (for instance details: from an SRV record)"""
    cb = [e for e in evs if kind(e) == 'callback']
    if cb:
        d = flow(L, s, cb[-1].a[1][3])
        return True if d == 1 else False if d == 0 else None
    if L.path.endswith('load_instance_details'):
        ps = [e for e in evs if kind(e) == 'parse' and e.a[1][1] == 'SRV' and e.a[1][3] is not None]
        return bool(ps)
    return False


def flow(L, s, r):
    """0 continue, 1 break, None unknown"""
    d = L.ip.discr(s, r, r.ty)
    for k in (0, 1):
        if s.entails_eq(d, I(k)):
            return k
    return None


# ---- C21 ----------------------------------------------------------------------------------------
def map_base(v):
    while v.op == 'map' and v.a[0] == 'ins':
        v = v.a[1]
    return v


def holds_key(v, k):
    while v.op == 'map' and v.a[0] == 'ins':
        if v.a[2] is k:
            return True
        v = v.a[1]
    return False


def is_copy(ip, s, t, k):
    """is t the value k, or one made of the same parts?"""
    return t is k or (isinstance(t, T) and leaves_of(ip, s, t) == leaves_of(ip, s, k))


def known_in(ip, s, places, k):
    """what is known about the presence of k in a map, before it is inserted: [(map, 0/1)]"""
    out = [(t.a[0], v) for t in s.eqc if isinstance(t, T) and t.op == 'inmap' and is_copy(ip, s, t.a[1], k) for v in (0, 1) if s.entails_eq(t, I(v))]
    return out


def at_place(s, root, path, L):
    try:
        return L.ip.load(s, root, path)
    except Unknown:
        return None


def c21_one(c0, L):
    ip = L.ip
    want = 'PTR'
    once = 'each result is reported once'
    all_ = 'every result that decodes is reported'
    skip = 'other records are skipped'
    stop = 'a request to stop is obeyed'
    places = {}
    calls = 0
    decode = {m for m, recs in L.loops.items() if not L.receives(m) and any(kind(e) == 'dec.entry' and e.a[1][1] == 'Answer' for r in recs for e in r.evs)}
    # one record at a time
    for s, evs, v, m in L.runs:
        if m is not None and m in decode:
            evs = list(next(r for r in L.loops[m] if r.back is s).evs)
        elif m is not None:
            evs = evs
        c = L.soft(s)
        cb = [i for i, e in enumerate(evs) if kind(e) == 'callback']
        calls += len(cb)
        cuts = [i for i, e in enumerate(evs) if kind(e) == 'dec.entry'] + [len(evs)]
        for i, j in zip(cuts, cuts[1:]):
            c21_record(c, L, s, evs[i:j], j == len(evs), v, m, places, (once, all_, skip, stop))
        c.ob(not any(i < cuts[0] for i in cb) or (None if any(kind(e) == 'next' for e in evs) else False), 'only results of received records are reported', L.where, 'calls back without a record')
        # leaving the records of a packet early
        if cuts[0] < len(evs):
            if (m is None or m not in decode) and evs[cuts[0]].a[1][1] == 'Answer' and any(e.op == 'loop' and e in decode for e in evs):
                d = [flow(L, s, evs[i].a[1][3]) for i in cb]
                c.ob(True if d and d[-1] == 1 else None if d and d[-1] is None else False, all_, L.where, 'the rest of a packet is skipped after %s' % [kind(e) for e in evs[cuts[0]:]][:4])
        elif v is None and m is not None and m not in decode and L.receives(m):
            passed_over(c, L, s, evs, all_)
    c0.ob(calls > 0, all_, L.where, 'the callback is never called')
    for root, path in places:
        persists(c0, L, root, path, once)


def passed_over(c, L, s, evs, rule):
    """a received packet that is dropped without reading its records"""
    ip = L.ip
    k = max([i for i, e in enumerate(evs) if kind(e) == 'recv' and e.a[1][2][0] == 'ok'] + [-1])
    if k < 0 or any(e.op == 'loop' or kind(e) in ('dec.err', 'dec.entry', 'dec.end') for e in evs[k + 1:]):
        return
    pkt = evs[k].a[1][2]
    s2 = s.copy()
    if not s2.add_ge0(addc(pkt[2], -12)):
        return
    q = services.bit(s2, ip.proj(s2, pkt[1], ('i', I(2))), 7, 1)
    if s2.entails_eq(q, I(0)):
        return
    c.ob(False if s2.entails_eq(q, I(1)) or q.op != 'cond' else None, rule, L.where, 'drops a received packet whatever its response bit')


def c21_record(c, L, s, evs, final, v, m, places, rules):
    once, all_, skip, stop = rules
    ip = L.ip
    sec = evs[0].a[1][1]
    rec = next((e for e in evs if kind(e) == 'record'), None)
    name = rec.a[1][1] if rec is not None else None
    ps = [e for e in evs if kind(e) == 'parse' and e.a[1][1] in ('PTR', 'SRV', 'TXT')]
    cb = [(i, e) for i, e in enumerate(evs) if kind(e) == 'callback']
    ks = [e.a[1][3] for e in ps if e.a[1][1] == 'PTR' and e.a[1][3] is not None]
    if sec != 'Answer' or name != 'PTR' or not ks:
        c.ob(not cb, skip, L.where, 'calls back for %s' % ('a record of the %s section' % sec if sec != 'Answer' else 'a record of type %s' % name if name != 'PTR' else 'a record that does not decode'))
        return
    K = ks[-1]
    c.ob(len(cb) <= 1, once, L.where, 'calls back %d times for one record' % len(cb))
    ins = [e for e in evs if kind(e) in ('map.insert', 'map.set', 'map.replace')]
    known = known_in(ip, s, places, K)
    if not cb:
        if any(x == 1 for mp, x in known) or any(kind(e) in ('map.set', 'map.replace') and is_copy(ip, s, e.a[1][3], K) for e in ins):
            c.ob(True, all_, L.where)
        else:
            part = [t for t in s.eqc if isinstance(t, T) and t.op == 'inmap' and t.a[1] is not K]
            if part:
                whole = leaves_of(ip, s, K)
                sub_ = [t for t in part if t.a[1] in subterms_of_value(ip, s, K) or (not tainted(ip, s, t.a[1]) and leaves_of(ip, s, t.a[1]) < whole)]
                c.ob(False if sub_ else None, all_, L.where, 'a result is left out when another one shares a part of it (%s)' % show(part[0].a[1])[:80])
            else:
                c.ob(None if any(kind(e) == 'push' for r in L.loops.get(m, []) for e in r.evs) else False, all_, L.where, 'a PTR record is left out though it has not been reported')
        return
    i, e = cb[-1]
    vals = e.a[1][5]
    full = chain(s.ev)
    r = reply_bit(L, s, full[:full.index(e)])
    c.ob(r if r or r is None else False, 'only results of responses are reported', L.where, 'reports results of a packet whatever its response bit')
    c.ob(True if vals and vals[0] is K else None if not vals or tainted(ip, s, vals[0]) else False, 'the result reported is the record\'s', L.where, 'reports %s' % show(vals[0] if vals else e)[:80])
    for x in ins:
        if is_copy(ip, s, x.a[1][3], K):
            places[(x.a[1][1], x.a[1][2])] = 1
    if ins and any(is_copy(ip, s, x.a[1][3], K) for x in ins):
        x = next(x for x in ins if is_copy(ip, s, x.a[1][3], K))
        if any(f == 1 for mp, f in known) or kind(x) in ('map.set', 'map.replace'):
            c.ob(False, once, L.where, 'calls back though the result has been reported before')
        elif kind(x) == 'map.insert':
            c.ob(True, once, L.where)
    elif ins or any(kind(x) == 'push' for x in evs):
        c.ob(None, once, L.where, 'how results are remembered')
    else:
        c.ob(None if m is not None and unsure(L, evs) else False, once, L.where, 'does not remember a reported result')
    d = flow(L, s, e.a[1][3])
    after = [kind(x) for x in evs[i + 1:] if kind(x) in ('recv', 'send', 'callback', 'dec.entry', 'timer')]
    if d == 1:
        c.ob(v is not None and is_(v, 0) and not after and final, stop, L.where, 'goes on (%s) after the callback asked to stop' % (after[:2] or ('to the next record' if v is None else show(v)[:60])))
    elif d == 0:
        c.ob(v is None and m is not None, 'discovery goes on while the callback wants it to', L.where, 'ends though the callback asked to go on')
    else:
        c.ob(None if v is not None and tainted(ip, s, e.a[1][3]) else False, stop, L.where, 'does not look at what the callback returned')


def unsure(L, evs):
    return any(kind(e) == 'call' for e in evs)


def subterms_of_value(ip, s, K):
    """the parts of a value: its fields and theirs, with or without going through a copy"""
    out, work = set(), [(K, K.ty, 0)]
    while work:
        v, ty, d = work.pop()
        out.add(v)
        if d > 4 or ty is None or ip.p.types[ty].get('k') != 'struct':
            continue
        for i, ft in enumerate(ip.p.fields(ty)):
            x = ip.proj(s, v, ('f', None, i, ft))
            if x not in out:
                work.append((x, ft, d + 1))
    out.discard(K)
    return out


def leaves_of(ip, s, v):
    """what a value consists of"""
    out, work = set(), [(v, v.ty, 0)]
    while work:
        v, ty, d = work.pop()
        if v.op == 'agg' and v.a[0] is not None:
            ty = v.a[0]
        if d < 6 and ty is not None and ip.p.types[ty].get('k') in ('struct', 'tuple') and ip.p.types[ty].get('path') not in ('std::vec::Vec', 'std::boxed::Box', 'std::string::String'):
            work += [(ip.proj(s, v, ('f', None, i, ft)), ft, d + 1) for i, ft in enumerate(ip.p.fields(ty))]
        else:
            out.add(v)
    return out


def persists(c, L, root, path, rule):
    """what has been reported is remembered as long as the call runs"""
    def val(s):
        if root not in s.mem:
            return None
        return at_place(s, root, path, L)
    for m, recs in L.loops.items():
        if not (L.has(m, 'callback') or any(kind(e) == 'callback' for r in recs for e in r.evs)):
            continue
        for r in recs:
            h, b = val(r.head), val(r.back)
            if h is None:
                c.ob(False if root[0] == 'L' else None, rule, L.where, 'what has been reported is forgotten between packets or queries')
                continue
            if b is None:
                c.ob(None, rule, L.where, 'where results are remembered')
                continue
            base = map_base(b)
            inner = [val(q.head) for e in r.evs if e.op == 'loop' for q in L.loops.get(e, [])]
            ok = base is map_base(h) or any(x is not None and map_base(x) is base for x in inner)
            cleared = any(kind(e) == 'map.clear' for e in r.evs) or (base.op == 'map' and base.a[0] == 'empty')
            c.ob(True if ok else False if cleared else None, rule, L.where, 'what has been reported is forgotten while the call runs')
            if h.op == 'phi':
                for e in set(x for x in r.evs if x.op == 'loop' and x in L.loops and L.has(x, 'callback')):
                    ini = [val(s0) for s0 in L.ip.loop_init.get(e, [])]
                    ok = any(x is not None and (map_base(x) is h or map_base(x).op == 'phi') for x in ini)
                    gone = all(x is not None and map_base(x).op == 'map' for x in ini)
                    c.ob(True if ok else False if gone else None, rule, L.where, 'what has been reported is forgotten between packets or queries')


# ---- C22 ----------------------------------------------------------------------------------------
def ip_octet(ip, s, a, k):
    """the first octet of the address of a SocketAddr of family k"""
    p = ip.p
    v = ip.proj(s, a, ('f', k, 0, p.fields(a.ty, k)[0]))
    v = ip.proj(s, v, ('f', None, 0, p.fields(v.ty)[0]))
    o = octets(ip, s, v, 16 if k else 4)
    if o is None:
        raise Unknown('the address of a server')
    return o[0]


def family(ip, s, a):
    d = ip.discr(s, a, a.ty)
    return 1 if s.entails_eq(d, I(1)) else 0 if s.entails_eq(d, I(0)) else None


def unicast_states(s, o, k):
    """the ways in which an address with first octet o is not a multicast address, if any is possible"""
    out = []
    for f in ([lambda q: q.add_ge0(sub(I(223), o)), lambda q: q.add_ge0(addc(o, -240))] if k == 0 else [lambda q: q.add_ge0(sub(I(254), o))]):
        q = s.copy()
        if f(q):
            out.append(q)
    return out


def multicast_states(s, o, k):
    q = s.copy()
    if k == 0:
        return [q] if q.add_ge0(addc(o, -224)) and q.add_ge0(sub(I(239), o)) else []
    return [q] if q.add_eq0(addc(o, -255)) else []


def c22_new(c0, crate):
    ty = RES[crate]
    p = c0.prog(crate)
    ip = svc_interp(c0, p)
    b, add = fn(p, ty + '::new'), fn(p, ty + '::add_server')
    args, res = run_any(ip, b)
    c0.account(ip)
    a0 = args[0]
    where = loc(b)
    made = []
    for s, v in res:
        c = Soft(c0, ip, s)
        if is_err(v):
            c.ob(any('err' in e.a[1] for e in chain(s.ev) if e.op == 'ev'), 'a resolver is created for every server', where, 'fails without a socket failing')
            continue
        bind = [e.a[1] for e in chain(s.ev) if kind(e) == 'sock.bind']
        if len(bind) != 1:
            c.ob(False if not bind else None, 'the socket is bound to the unspecified address', where, 'binds %d sockets' % len(bind))
            continue
        x = bind[0][1]
        k = family(ip, s, a0)
        if x.op == 'agg' and x.a[1] in (0, 1) and x.ty == a0.ty:
            kx = x.a[1]
            s2 = s.copy()
            if k is None:
                c.ob(False if s2.add_eq0(addc(ip.discr(s2, a0, a0.ty), -(1 - kx))) else None, "the socket has the server's family", where, 'binds an IPv%d socket whatever the family of the server' % (6 if kx else 4))
            else:
                c.ob(k == kx, "the socket has the server's family", where, 'binds an IPv%d socket for an IPv%d server' % (6 if kx else 4, 6 if k else 4))
            o = octets(ip, s, ip.proj(s, x.a[2][0], ('f', None, 0, p.fields(x.a[2][0].ty)[0])), 16 if kx else 4)
            c.ob(None if o is None else all(s.entails_eq(y, I(0)) for y in o), 'the socket is bound to the unspecified address', where, 'bound to %s' % show(x)[:100])
        else:
            c.ob(None, 'the socket is bound to the unspecified address', where, 'bound to %s' % show(x)[:80])
        if k is not None:
            servers_are(c, ip, s, v.a[2][0], [a0], where)
            made.append((s, v.a[2][0], k))
    c0.ob(bool(made), 'a resolver is created for every server', where, 'no outcome creates one')
    for s, v, k in made:
        root, ref = on_value(ip, s, v, 'resolver')
        work = [(s, [a0])]
        for step in (1, 2):
            nxt = []
            for s1, have in work:
                a = ip.fresh_sym(uniq('server'), a0.ty)
                before = len(ip.panics)
                out = run(ip, s1.copy(), add, [ref, a], 'add')
                for s2, r in out:
                    c = Soft(c0, ip, s2)
                    k2 = family(ip, s2, a)
                    q = s2.copy()
                    c.ob(k2 == k if k2 is not None else False if q.add_eq0(addc(ip.discr(q, a, a.ty), -(1 - k))) else None,
                         'a server of another family is refused', loc(add), 'adds an IPv%d server to a resolver for IPv%d' % (4 if k else 6, 6 if k else 4))
                    c.ob(not multicast_states(s2, ip_octet(ip, s2, a0, k), k), 'a multicast resolver takes no further server', loc(add), 'adds a server to a resolver of a multicast group')
                    servers_are(c, ip, s2, ip.load(s2, root, ()), have + [a], loc(add))
                    nxt.append((s2, have + [a]))
                for kd, stack, span, s2 in ip.panics[before:]:
                    c = Soft(c0, ip, s2)
                    q = s2.copy()
                    fine = q.add_eq0(addc(ip.discr(q, a, a.ty), -k)) and unicast_states(q, ip_octet(ip, q, a0, k), k)
                    c.ob(not fine, 'unicast servers of the same family are accepted', loc(add), 'panics (%s) for a server that fits' % kd)
            work = nxt


def c22_add(c0, crate):
    """add_server on a resolver with any number of servers"""
    ty = RES[crate]
    p = c0.prog(crate)
    ip = svc_interp(c0, p)
    add = fn(p, ty + '::add_server')
    args, res = run_any(ip, add)
    c0.account(ip)
    T = tyof(p, ty)
    sa = lambda t: t.get('path', '').endswith('vec::Vec') and p.types[t['args'][0]].get('path', '').endswith('net::SocketAddr')
    at = [(('f', None, i, f), ('v',)) for i, f in enumerate(p.fields(T)) if sa(p.types[f])]
    rule = 'all servers are kept'
    if len(at) != 1:
        c0.ob(None, rule, loc(add), 'where the servers are kept')
        return
    for s, v in res:
        c = Soft(c0, ip, s)
        old = ip.load(State(), ('S', args[0]), at[0])
        ps = [y for y in parts_of(ip, s, ip.load(s, ('S', args[0]), at[0])) if not (y[0] == 'span' and s.entails_eq(y[3], I(0)))]
        new = [y for y in ps if y[0] == 'one']
        spans = [y for y in ps if y[0] == 'span' and y[1] is old]
        if len(new) + len(spans) != len(ps):
            c.ob(None, rule, loc(add), 'keeps %s' % [show(y[1])[:60] for y in ps])
            continue
        if any('ret' in (x.op for x in subterms(t)) for t in s.eqc if any(y is args[1] for y in subterms(t))):
            c.ob(None, rule, loc(add), 'what is tested about the server')
            continue
        c.ob(any(addr_is(s, y[1], args[1]) for y in new), rule, loc(add), 'a server is not added')
        n = I(0)
        for y in spans:
            n = terms.add(n, y[3])
        c.ob(s.entails_eq(n, ip.length(old)) if len(new) == 1 else None, rule, loc(add), 'loses servers')


def servers_are(c, ip, s, v, want, where):
    p = ip.p
    sa = lambda t: t.get('path', '').endswith('vec::Vec') and p.types[t['args'][0]].get('path', '').endswith('net::SocketAddr')
    l = list(flat_vec(ip, s, v, sa))
    if len(l) != 1:
        c.ob(None, 'all servers are kept', where, 'where the servers are kept')
        return
    x = l[0]
    ct = x.a[0] if x.op == 'vec' else None
    if ct is None:
        c.ob(None, 'all servers are kept', where, show(x)[:80])
        return
    ps = [y for y in parts_of(ip, s, ct) if not (y[0] == 'span' and s.entails_eq(y[3], I(0)))]
    if any(y[0] != 'one' for y in ps):
        c.ob(None, 'all servers are kept', where, show(ct)[:80])
        return
    got = [y[1] for y in ps]
    c.ob(len(got) == len(want) and all(any(addr_is(s, g, w) for g in got) for w in want), 'all servers are kept', where, 'keeps %s' % [show(g)[:40] for g in got])


def flat_vec(ip, s, v, want):
    if v.ty is None:
        return
    for i, f in enumerate(ip.p.fields(v.ty)):
        t = ip.p.types[f]
        x = ip.proj(s, v, ('f', None, i, f))
        if want(t):
            yield x
        elif t['k'] == 'struct' and t.get('path', '').startswith('uwuhi'):
            yield from flat_vec(ip, s, x, want)


def servers_of(L, s):
    """the content of the list of servers"""
    p = L.p
    ty = tyof(p, L.path.rsplit('::', 1)[0])
    out = []
    for i, f in enumerate(p.fields(ty)):
        t = p.types[f]
        if t.get('path', '').endswith('vec::Vec') and p.types[t['args'][0]].get('path', '').endswith('net::SocketAddr'):
            out.append(L.ip.load(s, ('S', L.args[0]), (('f', None, i, f), ('v',))))
    if len(out) != 1:
        raise Unknown('the list of servers')
    return out[0]


def c22_send(c0, L):
    ip = L.ip
    rule = 'the query is sent once to every server'
    loops = {m: recs for m, recs in L.loops.items() if any(kind(e) == 'send' for r in recs for e in r.evs) and not L.receives(m)}
    if not loops:
        c0.ob(False if any(kind(e) == 'send' for s, v in L.res for e in chain(s.ev)) else False, rule, L.where, 'queries are not sent in turn')
    idx = {}
    for m, recs in loops.items():
        for r in recs:
            s = r.back
            c = L.soft(s)
            sends = [e.a[1] for e in r.evs if kind(e) == 'send']
            n = len(sends)
            sv = servers_of(L, s)
            ok = [x for x in sends if x[6] if True]
            if n != 1:
                if n == 0:
                    c.ob(None, rule, L.where, 'sends nothing for a server')
                else:
                    c.ob(False, rule, L.where, 'sends %d times per server' % n)
                continue
            a = sends[0][3]
            for _ in range(3):
                if a.op in ('sockaddr', 'copy'):
                    a = a.a[0]
            if a.op != 'elem' or a.a[0] is not sv:
                c.ob(None if tainted(ip, s, a) or a.op in ('ret', 'phi') else False, rule, L.where, 'sends to %s' % show(a)[:80])
                continue
            phis = [t for t in subterms_or_self(a.a[1]) if t.op == 'phi']
            if len(phis) != 1:
                c.ob(False if not phis else None, rule, L.where, 'sends to server %s' % show(a.a[1])[:60])
                continue
            t = phis[0]
            g = grown(L, t)
            if g is None or g[0] is not m:
                c.ob(None, rule, L.where, 'which servers are sent to')
                continue
            idx[m] = (t, a.a[1], sv)
            for s0, v in g[2]:
                Soft(c0, ip, s0).ob(s0.entails_eq(v, I(0)), rule, L.where, 'starts with server %s' % show(v)[:60])
            for q, v in g[1]:
                L.soft(q.back).ob(q.back.entails_eq(v, addc(t, 1)), rule, L.where, 'goes from server %s to %s' % (show(t)[:40], show(v)[:60]))
    if not idx:
        return
    # once, and all of them
    for s, evs, v, m in L.runs:
        full = chain(s.ev)
        if not any(kind(e) == 'recv' for e in evs):
            continue
        c = L.soft(s)
        for e in full:
            if e.op == 'loop' and e in idx:
                t, i, sv = idx[e]
                n = ip.length(sv)
                if s.entails(sub(t, n)):
                    c.ob(True, rule, L.where)
                else:
                    q = s.copy()
                    c.ob(False if t in dep_terms(s) and q.add_ge0(addc(sub(n, t), -1)) else None, rule, L.where, 'goes on before all servers have been sent to')
        k = sum(e.op == 'loop' and e in idx for e in full)
        inside = any(e.op == 'loop' and e in idx for m2 in L.loops if L.receives(m2) for r in L.loops[m2] for e in r.evs)
        c.ob(None if inside else k <= 1, rule, L.where, 'sends the query %d times' % k)


def subterms_or_self(t):
    return set(subterms(t)) | {t}


# ---- C28 ----------------------------------------------------------------------------------------
DET = SVC + 'InstanceDetails'


def part_of_details(L, s, v, item):
    """what an accessor of InstanceDetails returns for a value"""
    ip = L.ip
    b = fn(L.p, DET + '::' + item)
    s = s.copy()
    root, ref = on_value(ip, s, v, 'det')
    out = run(ip, s, b, [ref], item)
    if len(out) != 1:
        raise Unknown('what %s returns' % item)
    s2, x = out[0]
    if x.op == 'ref':
        x = ip.load(s2, x.a[0], x.a[1])
    return x


def reply_bit(L, s, evs):
    """is the packet a record was read from a response?"""
    r = [e for e in evs if kind(e) == 'recv' and e.a[1][2][0] == 'ok']
    if not r:
        return None
    pkt = r[-1].a[1][2][1]
    q = services.bit(s, L.ip.proj(s, pkt, ('i', I(2))), 7, 1)
    return s.entails_eq(q, I(1))


def c28_one(c0, L):
    ip, p = L.ip, L.p
    made = 'details are those of a received SRV record'
    txts = 'the attributes of a TXT record of the reply are returned'
    dety = tyof(p, DET)
    D = Deadline(c0, L)
    srv, txt = {}, {}
    for s, evs, v, m in L.runs:
        full = chain(s.ev)
        for i, e in enumerate(full):
            if kind(e) != 'parse' or e.a[1][3] is None or e.a[1][1] not in ('SRV', 'TXT'):
                continue
            (srv if e.a[1][1] == 'SRV' else txt)[e.a[1][3]] = (s, full[:i])
    good = withtxt = 0
    for s, v in L.res:
        c = L.soft(s)
        evs = L.since(chain(s.ev))
        late = any(t[3] for t in D.tests(s))
        if is_err(v):
            if late and kind(evs[-1]) in ('elapsed', 'now'):
                ek, names_ = kinds_of(L)
                e = v.a[2][0]
                k = e.a[0].a[1] if e.op == 'ioerr' and e.a[0].op == 'agg' else None
                c.ob(None if k is None else k == names_.get('TimedOut'), 'without an SRV record the call fails with a timeout', L.where, 'fails with %s' % show(e)[:60])
            continue
        if not is_(v, 0):
            c.ob(None, made, L.where, show(v)[:60])
            continue
        good += 1
        det = v.a[2][0]
        hp = [part_of_details(L, s, det, i) for i in ('host', 'port')]
        src = [x for x in srv if [part_of_details(L, s, x, i) for i in ('host', 'port')] == hp]
        if not src:
            mixed = [x for x in srv if any(part_of_details(L, s, x, i) is y for i, y in zip(('host', 'port'), hp))]
            taint = tainted(ip, s, *hp) or any(t.op == 'phi' for y in hp for t in subterms_or_self(y))
            c.ob(None if taint and not mixed else False, made, L.where, 'returns host %s, port %s' % tuple(show(y)[:80] for y in hp))
            continue
        c.ob(True, made, L.where)
        s1, before = srv[src[0]]
        lastrec = [e for e in before if kind(e) == 'record']
        c.ob(bool(lastrec) and lastrec[-1].a[1][1] == 'SRV', made, L.where, 'what is read as SRV is a record of another type')
        r = reply_bit(L, s, chain(s.ev))
        c.ob(r if r or r is None else False, 'only replies are read', L.where, 'details are taken from a packet whatever its response bit')
        t = part_of_details(L, s, det, 'txt_records')
        own = part_of_details(L, s, src[0], 'txt_records')
        if t in txt:
            withtxt += 1
            s2, before = txt[t]
            lastrec = [e for e in before if kind(e) == 'record']
            c.ob(bool(lastrec) and lastrec[-1].a[1][1] == 'TXT', txts, L.where, 'what is read as TXT is a record of another type')
            r = reply_bit(L, s2, before)
            c.ob(r if r or r is None else False, 'only replies are read', L.where, 'attributes are taken from a packet whatever its response bit')
        elif t is own:
            seen = s.ghost.get('TXT')
            named = any(x.op == 'nameeq' for x in dep_terms(s))
            c.ob(seen is False or None if named or seen is None else not seen, txts, L.where, 'returns details without attributes though a TXT record was received before')
            i = max([i for i, e in enumerate(evs) if kind(e) == 'parse' and e.a[1][1] == 'SRV'] + [-1])
            read = [e for e in evs[i + 1:] if kind(e) in ('dec.end', 'dec.err', 'dec.entry') or e.op == 'loop']
            c.ob(bool(read) or i < 0, 'a TXT record after the SRV record is returned too', L.path, 'a TXT record that follows the SRV record is not looked at')
        else:
            c.ob(None if tainted(ip, s, t) or any(y.op == 'phi' for y in subterms_or_self(t)) else False, txts, L.where, 'returns the attributes %s' % show(t)[:100])
    c0.ob(good > 0, made, L.where, 'no outcome returns details')
    c0.ob(withtxt > 0, txts, L.where, 'no outcome has the attributes of a TXT record')


# ---- C25 ----------------------------------------------------------------------------------------
def method_value(L, s, path, v, by_ref=True):
    """what a method returns for a value: [(state, value)]"""
    ip = L.ip
    b = fn(L.p, path)
    s = s.copy()
    if by_ref:
        root, a = on_value(ip, s, v, 'recv')
    else:
        a = v
    out = []
    for s2, x in run(ip, s, b, [a], path):
        if x.op == 'ref':
            x = ip.load(s2, x.a[0], x.a[1])
        out.append((s2, x))
    return out


def has_fn(p, path):
    return any(b['body'] is not None and npath(b['path']) == path for b in p.d['bodies'])


def only(out, what):
    if len(out) != 1:
        raise Unknown(what)
    return out[0][1]


def vec_of(L, s, v, ty):
    """the content of the one Vec in a value"""
    want = lambda t: t.get('path', '') in ('std::vec::Vec', 'std::boxed::Box', 'std::string::String') or t['k'] == 'array'
    l = list(services.flat(L.ip, s, v, want, (), 2, ty))
    if len(l) != 1:
        raise Unknown('the representation of ' + L.p.ts(ty))
    path, x = l[0]
    if x.ty is not None and L.p.tk(x.ty) == 'array':
        return x
    return L.ip.proj(s, x, ('v',)) if x.op not in ('vec', 'box') else x.a[0]


class Name:
    """the labels of a domain name value, as a list of ('one', [(state, label)]) and ('span', content)"""
    def __init__(self, L, s, v):
        self.L, self.s = L, s
        self.dn = tyof(L.p, DN)
        self.lab = tyof(L.p, services.PKN + 'Label') if hasattr(services, 'PKN') else tyof(L.p, 'uwuhi::name::Label')
        self.toks = []
        self.ok = True
        ct = vec_of(L, s, v, self.dn)
        for x in sequence(L.ip, s, ct):
            if x[0] == 'one':
                self.toks.append(('one', [(s, x[1])]))
            elif x[0] == 'span':
                if s.entails_eq(x[3], I(0)):
                    continue
                if s.entails_eq(x[2], I(0)) and s.entails_eq(x[3], L.ip.length(x[1])):
                    self.toks.append(('span', x[1]))
                else:
                    self.toks.append(('part', x[1]))
            else:
                self.each(x[1])

    def each(self, E):
        L, s, ip = self.L, self.s, self.L.ip
        base = None
        for r, it in E.recs:
            if it is None:
                self.ok = False
                continue
            d = it.a[0] if it.op == 'deref' else it
            while d.op in ('copy', 'clone'):
                d = d.a[0]
            if d.op != 'elem' or (base is not None and base[0] is not d.a[0]):
                self.toks.append(('unknown', it))
                return
            base = (d.a[0], it.op == 'deref', base[2] + [(r, d.a[1])] if base else [(r, d.a[1])])
        if base is None:
            self.toks.append(('unknown', E.term))
            return
        ct, de, idx = base
        for r, i in idx:
            if i.op == 'int':
                continue
            g = grown(L, i) if i.op == 'phi' else None
            if g is None:
                self.toks.append(('unknown', ct))
                return
            if not all(s0.entails_eq(v, I(0)) for s0, v in g[2] if v.op == 'int') or not all(q.back.entails_eq(b, addc(i, 1)) for q, b in g[1]):
                self.toks.append(('part', ct))
                return
        if not s.entails_eq(ip.length(E.term), ip.length(ct)):
            self.toks.append(('unknown', ct))
            return
        if ct.op == 'seq' and all(p[0] == 'o' for p in ct.a[0]):
            for p in ct.a[0]:
                if de and p[1].op == 'ref':
                    vals = []
                    for s0 in ip.loop_init.get(E.marker, []):
                        try:
                            vals.append((s0, ip.load(s0, p[1].a[0], p[1].a[1])))
                        except Exception:
                            pass
                    self.toks.append(('one', vals))
                else:
                    self.toks.append(('one', [(s, p[1])]))
        elif de:
            self.toks.append(('unknown', ct))
        else:
            self.toks.append(('span', ct))


def label_bytes(L, s, v):
    """the parts of a label's text"""
    ip = L.ip
    ty = tyof(L.p, 'uwuhi::name::Label')
    return [x for x in parts_of(ip, s, vec_of(L, s, v, ty))]


def literal(parts):
    out = []
    for x in parts:
        if x[0] != 'one' or x[1].op != 'int':
            return None
        out.append(x[1].a[0])
    return bytes(out)


def label_is(L, cands, want):
    """want: bytes -> None/..., or a function (state) -> label value. True, False or None"""
    res = []
    for s, v in cands:
        w = want(s)
        if isinstance(w, T) and v is w:
            res.append(True)
            continue
        try:
            got = label_bytes(L, s, v)
        except Unknown:
            return None
        if w is None:
            return None
        if isinstance(w, bytes):
            lit = literal(got)
            if lit is None and (tainted(L.ip, s, v) or any(x.op in ('ret', 'phi') for x in subterms_or_self(v))):
                return None
            res.append(lit == w)
        else:
            wp = label_bytes(L, s, w)
            res.append(True if same_parts(s, got, wp) else None if tainted(L.ip, s, v) or any(x.op in ('ret', 'phi') for x in subterms_or_self(v)) else False)
    return False if False in res else None if None in res or not res else True


def name_is(L, s, v, want):
    """compare a name with a list of ('label', f, text) | ('labels', content, text)"""
    n = Name(L, s, v)
    if any(t[0] == 'unknown' for t in n.toks):
        return None, 'a name of unknown origin'
    if not n.ok:
        return False, 'labels are left out'
    i = 0
    for k, w in enumerate(want):
        if i >= len(n.toks):
            return (None, '') if w[0] == 'labels' and w[1] is None else (False, 'there is no %s in the name' % w[2])
        t = n.toks[i]
        if w[0] == 'label':
            if t[0] != 'one':
                return (None if t[0] == 'span' and t[1].op in ('ret', 'phi') else False), 'there is no %s at its place' % w[2]
            r = label_is(L, t[1], w[1])
            if r is not True:
                return r, 'what is at the place of the %s is %s' % (w[2], show(t[1][0][1])[:80] if t[1] else '')
        else:
            if t[0] != 'span' or t[1] is not w[1]:
                return (None if t[0] == 'span' and t[1].op == 'phi' else False), 'what is at the place of the %s is %s' % (w[2], show(t[1])[:80] if isinstance(t[1], T) else [show(x)[:60] for _, x in t[1]])
        i += 1
    if i < len(n.toks):
        return False, 'the name goes on after the %s' % want[-1][2]
    return True, ''


def transport_label(L, val):
    """the text the transport of a service value stands for, in a state"""
    def f(s):
        out = method_value(L, s, SVC + 'Service::transport', val(s))
        if len(out) != 1:
            return None
        s2, t = out[0]
        ty = tyof(L.p, SVC + 'ServiceTransport')
        d = L.ip.discr(s2, t, ty)
        for k, vn in enumerate(L.p.types[ty]['v']):
            if s2.entails_eq(d, I(k)):
                return b'_tcp' if vn['n'].lower() == 'tcp' else b'_udp'
        return None
    return f


def arg_value(L, i):
    def f(s):
        return L.ip.load(s, ('S', L.args[i]), ())
    return f


def domain_of(L, s):
    """the labels of the domain a discoverer was created for"""
    ty = tyof(L.p, L.path.rsplit('::', 1)[0])
    sv = L.ip.load(s, ('S', L.args[0]), ())
    l = list(services.flat(L.ip, s, sv, lambda t: t.get('path') == DN, (), 2, ty))
    if len(l) != 1:
        raise Unknown('the domain of the discoverer')
    return vec_of(L, s, l[0][1], tyof(L.p, DN))


def queried(L, s, v):
    """(True/False/None, why) for the name of a question"""
    p = L.p
    what = L.path.rsplit('::', 1)[1]
    if what == 'resolve_domain':
        w = arg_value(L, 1)(s)
        if v is w:
            return True, ''
        return name_is(L, s, v, [('labels', vec_of(L, s, w, tyof(p, DN)), 'name given')])
    if what == 'resolve':
        for e in chain(s.ev):
            if kind(e) == 'parse' and e.a[1][1] == 'str' and e.a[1][3] is v:
                ct, off, n = L.ip.slice_content(s, L.args[1])
                return (True if e.a[1][2] is L.ip.subseq(s, ct, off, n) else None if tainted(L.ip, s, e.a[1][2]) else False), 'the name is that of the text %s' % show(e.a[1][2])[:80]
        return (None if v.op == 'phi' else False), 'the name is %s' % show(v)[:80]
    dom = ('labels', domain_of(L, s), 'domain')
    if what == 'discover_service_types':
        toks = Name(L, s, v)
        first = toks.toks[0] if toks.toks else None
        if first and first[0] == 'span':
            for e in chain(s.ev):
                if kind(e) == 'parse' and e.a[1][1] == 'str' and e.a[1][3] is not None and vec_of(L, s, e.a[1][3], tyof(p, DN)) is first[1]:
                    txt = literal(parts_of(L.ip, s, e.a[1][2]))
                    if txt is None:
                        return None, 'an unknown text'
                    if txt.rstrip(b'.') != b'_services._dns-sd._udp':
                        return False, 'the name is %r' % txt
                    return name_is(L, s, v, [('labels', first[1], 'enumeration name'), dom])
        return name_is(L, s, v, [('label', lambda s, x=x: x, x.decode()) for x in (b'_services', b'_dns-sd', b'_udp')] + [dom])
    arg = arg_value(L, 1)
    if what == 'discover_instances':
        return name_is(L, s, v, [('label', lambda s: only(method_value(L, s, SVC + 'Service::name', arg(s)), 'the name of a service'), 'service name'),
                                 ('label', transport_label(L, arg), 'transport'), dom])
    serv = lambda s: only(method_value(L, s, SVC + 'ServiceInstance::service', arg(s)), 'the service of an instance')
    return name_is(L, s, v, [('label', lambda s: only(method_value(L, s, SVC + 'ServiceInstance::instance_name', arg(s)), 'the name of an instance'), 'instance name'),
                             ('label', lambda s: only(method_value(L, s, SVC + 'Service::name', serv(s)), 'the name of a service'), 'service name'),
                             ('label', transport_label(L, serv), 'transport'), dom])


TYPES = {'resolve': {1, 28}, 'resolve_domain': {1, 28}, 'load_instance_details': {33, 16}, 'discover_instances': {12}, 'discover_service_types': {12}}


def number(v):
    while v.op == 'agg' and len(v.a[2]) == 1:
        v = v.a[2][0]
    return v


def question_parts(L, q):
    """(type, class) of a Question value, as numbers"""
    p = L.p
    if q.op != 'agg':
        return None, None
    ty = cl = None
    for x, f in zip(q.a[2], p.fields(q.ty, q.a[1])):
        n = p.types[f].get('path', '')
        if n == PK + 'QType':
            ty = number(x)
        elif n == PK + 'QClass':
            cl = number(x)
    return ty, cl


def c25_one(c0, L):
    ip, p = L.ip, L.p
    exact = 'the datagram sent is exactly the encoded query'
    plain = 'the query is a plain query'
    qs = 'one question per requested type is asked, in class IN'
    nm = 'the question is for the name requested'
    sends = sends_of(L)
    want = TYPES[L.path.rsplit('::', 1)[1]]
    resolver = 'esolver' in L.path
    done = set()
    for s, e in sends:
        c = L.soft(s)
        x = e.a[1]
        ps = [y for y in parts_of(ip, s, x[2]) if y[0] == 'one' or not s.entails_eq(y[3], I(0))]
        encs = [y for y in ps if y[0] == 'span' and y[1].op == 'encoded']
        if len(ps) != 1 or not encs:
            c.ob(None if not encs and any(t.op in ('ret', 'phi') for y in ps for t in (subterms_or_self(y[1]) if isinstance(y[1], T) else [])) and not any(y[1].op in ('rep', 'wr') for y in ps) else False, exact, L.where, 'sends %s' % show(x[2])[:120])
            continue
        y = encs[0]
        ev = chain(y[1].a[0])
        fin = [z for z in ev if kind(z) == 'enc.finish']
        if not fin or fin[-1].a[1][1] != 'ok':
            c.ob(False, exact, L.where, 'sends a query that was not finished')
            continue
        n = fin[-1].a[1][2]
        c.ob(s.entails_eq(y[2], I(0)) and s.entails_eq(y[3], n), exact, L.where, 'sends %s bytes from %s of %s encoded' % (show(s.norm(y[3]))[:60], show(s.norm(y[2]))[:20], show(n)[:60]))
        if y[1] in done:
            continue
        done.add(y[1])
        i = max(i for i, z in enumerate(ev) if kind(z) == 'enc.new')
        ev = ev[i:]
        c25_header(c, L, s, ev, plain, resolver)
        c25_questions(c0, L, s, ev, qs, nm, want)
        for z in ev:
            if kind(z) in ('enc.add_answer', 'enc.add_authority', 'enc.add_additional'):
                c.ob(None, plain, L.where, 'the query has records')
    c0.ob(bool(done), exact, L.where, 'no encoded query is sent')


def c25_header(c, L, s, ev, rule, resolver):
    ip, p = L.ip, L.p
    hs = [z.a[1][1] for z in ev if kind(z) == 'enc.header']
    if not hs:
        if resolver:
            c.ob(False, 'recursion is desired', L.where, 'no header is set')
        return
    h = hs[-1]
    H = PK + 'Header'
    for item, want in (('is_response', 0), ('opcode', 0)):
        if not has_fn(p, H + '::' + item):
            c.ob(None, rule, L.where, 'accessor ' + item)
            continue
        for s2, x in method_value(L, s, H + '::' + item, h):
            x = number(x)
            c.ob(True if s2.entails_eq(x, I(want)) else None if x.op in ('ret', 'phi') else False, rule, L.where, '%s is %s' % (item, show(s2.norm(x))[:60]))
    if not resolver:
        return
    rule = 'recursion is desired'
    if has_fn(p, H + '::is_recursion_desired'):
        for s2, x in method_value(L, s, H + '::is_recursion_desired', h):
            c.ob(s2.entails_eq(x, I(1)), rule, L.where, 'the RD bit is %s' % show(s2.norm(x))[:60])
        return
    if not has_fn(p, H + '::set_recursion_desired'):
        c.ob(False if literal_value(h) else None, rule, L.where, 'the RD bit is never set')
        return
    s2 = s.copy()
    root, ref = on_value(ip, s2, h, 'hdr')
    for s3, _ in run(ip, s2, fn(p, H + '::set_recursion_desired'), [ref, I(1)], 'setrd'):
        h2 = ip.load(s3, root, ())
        c.ob(True if h2 is h else False if literal_value(h) and literal_value(h2) else None, rule, L.where, 'the RD bit is not set')


def literal_value(v):
    return all(t.op in ('int', 'agg') for t in subterms_or_self(v))


def c25_questions(c0, L, s, ev, qs, nm, want):
    ip = L.ip
    c = L.soft(s)
    got, seen = {}, {}
    unknown = False
    for z in ev:
        if kind(z) == 'enc.question':
            one_question(c, L, s, z, qs, nm, got, ('direct', z))
        elif z.op == 'loop' and L.has(z, 'enc.question'):
            for r in L.loops.get(z, []):
                q = [y for y in r.evs if kind(y) == 'enc.question']
                if len(q) != 1:
                    unknown = True
                    if len(q) > 1:
                        L.soft(r.back).ob(False, qs, L.where, 'asks %d questions per type' % len(q))
                    continue
                its = [v for k, v in r.head.mem.items() for v in iters_in(v) if k in r.back.mem and r.back.mem[k] is not r.head.mem[k]]
                if not one_question(L.soft(r.back), L, r.back, q[0], qs, nm, got, ('iter', its[0].a[3]) if its else ('loop', z)):
                    unknown = True
    for t, where in got.items():
        if len(where) > 1 and not any(w[0] == 'loop' for w in where):
            c.ob(False, qs, L.where, 'asks for type %s %d times' % (t, len(where)))
    if set(got) - want:
        c.ob(False, qs, L.where, 'asks for the types %s' % sorted(got))
    elif want - set(got):
        c.ob(None if unknown else False, qs, L.where, 'asks only for the types %s' % sorted(got))
    else:
        c.ob(True, qs, L.where)


def iters_in(v):
    for t in subterms_or_self(v) if isinstance(v, T) else []:
        if t.op == 'iter' and t.a[0] in ('slice', 'own'):
            yield t


def one_question(c, L, s, z, qs, nm, got, where):
    ty, cl = question_parts(L, z.a[1][1])
    if ty is None or cl is None:
        c.ob(None, qs, L.where, show(z.a[1][1])[:80])
        return False
    c.ob(True if s.entails_eq(cl, I(1)) else False if cl.op == 'int' else None, qs, L.where, 'asks in class %s' % show(cl)[:40])
    r, why = queried(L, s, z.a[1][2]) if z.a[1][2] is not None else (None, '')
    c.ob(r, nm, L.where, why)
    if ty.op == 'int':
        got.setdefault(ty.a[0], set()).add(where)
        return True
    if ty.op == 'elem' and ty.a[0].op == 'seq':
        for p in ty.a[0].a[0]:
            x = number(p[1]) if p[0] == 'o' else None
            if x is None or x.op != 'int':
                return False
            got.setdefault(x.a[0], set()).add(where)
        return True
    c.ob(None, qs, L.where, 'type %s' % show(ty)[:60])
    return False


def c18(c):
    """For every outcome of resolve and resolve_domain that returns addresses, the list is traced back: it must have been empty when the last packet was received, and
    every element must be the address of an A or AAAA record read from that packet's answer section; the path must imply the packet's QR bit and contain no error."""
    each(c, RESOLVE, c18_one)


def c16(c):
    each(c, RESOLVE + DISCOVER, c16_client)


def c26(c):
    each(c, RESOLVE + DISCOVER, lambda c, L: services.c26_one(c, L))



def c19(c):
    """Constructors and setters of the blocking types are run and the read timeouts they set collected: Some(limit) on every successful construction, never None. In
    the async types every receive must be one side of a race whose other side is a timer of the configured duration. A failed or expired wait of a resolver must be
    followed by an error return."""
    for ty in (RES['uwuhi'], DIS['uwuhi']):
        c.group(ty, c19_methods, c, 'uwuhi', ty)
    each(c, RESOLVE + DISCOVER, c19_wait)


def c20(c):
    """For every receive the history is followed backwards, round loops: a comparison of the time since the first query with the configured limit, not reached, must
    come before any earlier receive. Paths on which it is reached, ends of the discovery and what follows an expired wait are classified."""
    each(c, DISCOVER, c20_one)


def c21(c):
    """One iteration of the record loop on any record: a decoded PTR value must lead to one callback with this value exactly if it is not in the map of reported
    values, which must hold it afterwards and keep its contents round all enclosing loops; other records lead to none. Break must lead to the return of success."""
    each(c, [x for x in DISCOVER if not x[1].endswith('load_instance_details')], c21_one)
    # the map of reported values goes by their order and equality
    import equality
    equality.comparisons(c, ('eq', 'cmp'), (equality.LB, 'uwuhi::service::Service', 'uwuhi::service::ServiceInstance', 'uwuhi::service::ServiceTransport'))


def c22(c):
    """The constructor is run on an arbitrary address and add_server twice on its result, with arbitrary addresses: every outcome must entail equal families and a
    unicast first server, every panic the opposite, and all servers must be kept. The loop that sends must go through all of them once."""
    for crate in ('uwuhi', 'uwuhi_async'):
        c.group(RES[crate], c22_new, c, crate)
        c.group(RES[crate] + '::add_server', c22_add, c, crate)
    each(c, RESOLVE, c22_send)


def c28(c):
    """Every successful outcome's host and port must be those of one value parsed from an SRV record of a response, its attributes those parsed from a TXT record, or
    none; the outcomes at the deadline must be timeout errors."""
    each(c, [x for x in DISCOVER if x[1].endswith('load_instance_details')], c28_one)


def c25(c):
    """What is sent is traced back to the encoder: its header, its questions and their names, which are compared label by label with what was requested."""
    each(c, RESOLVE + DISCOVER, c25_one)


def c16_all(c):
    services.c16(c)
    c16(c)


def c26_all(c):
    services.c26(c)
    c26(c)


PROPS = {'C25': c25, 'C28': c28, 'C22': c22, 'C21': c21, 'C18': c18, 'C19': c19, 'C20': c20, 'C16': c16_all, 'C26': c26_all, 'X16': c16, 'X26': c26}
