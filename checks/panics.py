"""C01: no received bytes make the library panic."""
from base import *
from util import *
import names, decoding, encoding, identities, services, discovery, wire
from wire import PK, find_name_reader, name_summary
from absenc import run_any, chain, kind, decoder_summary
from decoding import READER, DEC, uniq
from discovery import RESOLVE, DISCOVER

RULE = 'received bytes never make it panic'
SVC = 'uwuhi::service::'
# functions on what was received, by the module they are in
MODULES = ('uwuhi::packet', 'uwuhi::name', 'uwuhi::hex', 'uwuhi::num', 'uwuhi::service', 'uwuhi::error')
MAKERS = ('from_ptr', 'from_srv', 'from_txt', 'try_new')
# traits whose methods are given values to be sent or data that is not from a packet
SENDING = (PK + 'encoder::', 'uwuhi::service::advertising', 'uwuhi::service::discovery')
NOTRAIT = ('bitflags::', 'std::iter::Extend', 'std::ops::Drop', 'std::iter::FromIterator', 'std::hash::Hash')


def receiving(p, b):
    """is this a function, callable from outside, that is handed what was received?"""
    if not b.get('local') or b['body'] is None or not b.get('item') or '{closure' in b['path']:
        return False
    mod = b.get('mod') or ''
    if not any(mod == m or mod.startswith(m + '::') for m in MODULES) or any(mod.startswith(x.rstrip(':')) for x in SENDING) or '::_::' in b['path']:
        return False
    slf = npath(b.get('self') or '').split('<')[0].lstrip('&')
    if slf == READER:
        return False
    tr = b.get('trait')
    if tr:
        return not tr.startswith(NOTRAIT) and b['item'] not in ('encode', 'assert_fields_are_eq', 'assert_receiver_is_total_eq')
    if b.get('vis') != 'pub' and not (slf.startswith(DEC + 'MessageDecoder') and b.get('vis') == 'uwuhi'):
        return False
    if slf.startswith(DEC) or b['item'] in MAKERS:
        return True
    takes = any(v[0] == 'self' and v[1][:1] == [1] for v in b.get('vars') or [])
    t = p.types[b['locals'][1]] if b['argc'] else None
    return takes and not (t['k'] == 'ref' and t.get('mut'))


def roots(p):
    """one body per function; of a generic one its instances, if there are any"""
    by = {}
    for b in p.d['bodies']:
        if receiving(p, b):
            by.setdefault(b['path'], []).append(b)
    for path, bs in sorted(by.items()):
        free = [b for b in bs if re.search(r"[<, ](S|N|T)[>,]", b['name'])]
        inst = [b for b in bs if b not in free]
        seen = set()
        for b in inst or free:
            if b['name'] not in seen:
                seen.add(b['name'])
                yield b, not inst


def invariants(ip, p, **but):
    ip.struct_inv[names.LB] = names.label_inv(p)
    ip.struct_inv[READER] = decoding.reader_inv(p)
    try:
        ip.struct_inv[identities.SERVICE] = identities.service_inv(p)
    except (NoAnchor, Unknown):
        pass
    return ip


def firm(ip, s):
    """is it certain that this state can be reached: what it is known to satisfy does not rest on loop summaries or unknown operations"""
    if tainted(ip, s):
        return False
    head = None
    for e in chain(s.ev):
        if e.op == 'loop' and ip.loops.get(e):
            head = ip.loops[e][0].head
    new = [a for f in s.facts if head is None or f not in head.facts for a, _ in f[1]]
    new += [k for k in s.eqc if isinstance(k, T) and (head is None or k not in head.eqc)]
    new += [k for k in s.neq if isinstance(k, T) and (head is None or k not in head.neq)]
    return not any(t.op in ('phi', 'collected') for a in new for t in subterms(a))


def carried(ip, m, t):
    """how a value carried round a loop changes: [(record of one way round, its value at the end)]"""
    for r in ip.loops.get(m) or []:
        for k, v in r.head.mem.items():
            path = find_path(v, t)
            if path is None:
                continue
            try:
                return k, path, [(q, q.back.norm(walk(ip, q.back, q.back.mem[k], path)) if k in q.back.mem else None) for q in ip.loops[m] if k in q.head.mem and walk(ip, q.head, q.head.mem[k], path) is t]
            except Exception:
                return None
    return None


FAR = 1 << 40


def rests_on(s, head):
    """the terms of what is known in a state and was not yet known at the head of the loop"""
    new = [a for f in s.facts if f not in head.facts for a, _ in f[1]]
    new += [k for k in s.eqc if isinstance(k, T) and k not in head.eqc]
    new += [k for k in s.neq if isinstance(k, T) and k not in head.neq]
    return {t for a in new for t in subterms(a) if t.op in ('phi', 'collected', 'havoc')}


def read_from(t):
    """the terms of a value, not counting where in the input its bytes are"""
    out = {t}
    if t.op != 'elem':
        for x in t.a:
            for y in x if isinstance(x, tuple) else (x,):
                for z in y if isinstance(y, tuple) else (y,):
                    if isinstance(z, T):
                        out |= read_from(z)
    return out


def possible(s, *zero):
    q = s.copy()
    return all(q.add_eq0(x) for x in zero)


def unbounded(ip, s):
    """can this state, in a loop, be reached by going round often enough? Some way round must be possible as often as there is input: all it rests on are
    fresh data and positions in the input that only grow, and it makes the counter grow that the state wants large"""
    if tainted(ip, s):
        return False
    m = None
    for e in chain(s.ev):
        if e.op == 'loop' and ip.loops.get(e):
            m = e
    if m is None:
        return False
    want = min((rests_on(s, r.head) for r in ip.loops[m]), key=len)
    cur, cnt = [], []
    for t in want:
        if t.op != 'phi':
            return False
        hi = t.hi
        if hi is not None and hi <= 65535:
            cnt.append(t)
        else:
            q = s.copy()
            if not q.add_ge0(addc(t, -FAR)):
                return False
            cur.append(t)
    if not cnt:
        return False
    for r in ip.loops[m]:
        if tainted(ip, r.back):
            continue
        ok = True
        for t in cnt:
            w = carried(ip, m, t)
            v = [b for q, b in (w[2] if w else []) if q is r]
            # it must still be possible when the counter is almost what it takes
            q = r.back.copy()
            least = max([k for k in (1, 2, 4, 8, 16, 32, 64, 128, 192, 255, 256, 4096, 32768, 65535) if s.entails(addc(t, -k))] + [0])
            while least < t.hi and s.entails(addc(t, -least - 1)):
                least += 1
            ok = ok and bool(v) and v[0] is not None and r.back.entails(addc(sub(v[0], t), -1)) and q.add_ge0(addc(t, 1 - least))
        for t in cnt:
            # and at every value on the way
            vals = range(least) if t.hi <= 255 else (0, least // 2)
            if ok and (t.hi > 255 and any(isinstance(k, T) and t in subterms(k) for k in r.back.neq) or not all(possible(r.back, addc(t, -k)) for k in vals)):
                ok = False
        pos, span = set(), 2 * max(t.hi for t in cnt) + 2
        for t in rests_on(r.back, r.head) - set(cnt):
            w = carried(ip, m, t) if t.op == 'phi' and ok else None
            v = [b for q2, b in (w[2] if w else []) if q2 is r]
            if not v or v[0] is None:
                ok = False
                break
            b = v[0]
            q = r.back.copy()
            if r.back.entails(addc(sub(b, t), -1)):
                # grows, without a fixed bound
                ok = q.add_ge0(addc(t, -FAR))
            elif not any(x.op in ('phi', 'collected', 'havoc') for x in read_from(b)):
                # is chosen anew by what is received, by two less than before if it has to be less
                ok = all(possible(r.back, addc(t, -k), addc(b, 2 - k)) for k in (4, 4 + span))
            else:
                ok = False
            pos.add(t)
        if ok and pos and all(t in pos for t in cur):
            return True
    return False


def verdicts(c, ip, b, where, skip=None, soft=False):
    """every way to panic that the analysis of a function left open"""
    for kd, stack, span, s in ip.panics:
        if skip is not None and skip(kd, stack, span, s):
            continue
        at = '%s, reached from %s' % (span, where)
        ok = None if soft or not (firm(ip, s) or (kd == 'overflow' and unbounded(ip, s))) else False
        c.ob(ok, RULE, at, '%s in %s' % (kd, npath(stack[-1][0]) if stack else '?'))


def cursors(c, ip, p, s, v, where, soft):
    """the position of every reader there is lies within its buffer"""
    inv = ip.struct_inv.get(READER)
    n = 0
    seen = set()
    for x in [v] + list(s.mem.values()):
        for t in subterms(x):
            if t.op == 'agg' and t.ty is not None and p.types[t.ty].get('path') == READER and t not in seen:
                seen.add(t)
                n += 1
                bad = [x for x in inv(ip, t) if not s.entails(x)]
                c.ob(True if not bad else False if firm(ip, s) and not soft else None, 'a read position never lies behind the end of its buffer', where, show(s.norm(t))[:100] if bad else '')
    return n


def entry(c, p, b, generic):
    ip = c.interp(p, split_eq=1, inv_elem=1)
    name_summary(ip, p, True)
    invariants(ip, p)
    args, res = run_any(ip, b)
    c.account(ip)
    verdicts(c, ip, b, loc(b), soft=generic)
    for s, v in res:
        cursors(c, ip, p, s, v, loc(b), generic)
    c.ob(True if not ip.panics else None, 'every outcome is a value or an error', loc(b), '%d outcomes' % len(res)) if not ip.panics else None


def name_reader(c, p, b):
    ip = c.interp(p, split_eq=1, inv_elem=1)
    invariants(ip, p)
    args, res = run_any(ip, b)
    c.account(ip)
    verdicts(c, ip, b, loc(b))
    for s, v in res:
        cursors(c, ip, p, s, v, loc(b), False)
    c.ob(bool(res), 'every outcome is a value or an error', loc(b), '%d outcomes' % len(res))


def after_receive(ip, s):
    """was a packet received on the way, and was what fails not the sending of a query of our own?"""
    got = False
    for e in chain(s.ev):
        k = kind(e)
        if k in ('recv', 'handle', 'handled') or k.startswith('dec.') or k in ('record',):
            got = True
        elif k == 'loop' and any(kind(x) == 'recv' for r in ip.loops.get(e) or [] for x in r.evs):
            got = True
        elif k == 'enc.new':
            got = False
    return got


def c01_client(c, L):
    verdicts(c, L.ip, L.b, L.where, skip=lambda kd, stack, span, s: not after_receive(L.ip, s))
    c.ob(any(kind(e) == 'recv' for s, evs, v, m in L.runs for e in evs), 'what happens with received packets is analysed', L.where, '')


class Bounded(encoding.Enc):
    """an encoder on a buffer of at most 64 KiB (the services' are of MDNS_BUFFER_SIZE), with no more entries counted than there are bytes behind the header"""
    def assume(self, ip, st, d, pos=True):
        encoding.Enc.assume(self, ip, st, d, pos)
        st.assume(ge0(sub(I(65535), self.length(ip, st, d))), True)
        if pos:
            for x in self.bounds(ip, st, d):
                st.assume(ge0(x), True)

    def bounds(self, ip, s, d):
        return [sub(addc(self.get(ip, s, d, self.pos), -12), self.get(ip, s, d, path)) for path in self.cnt.values()] + [sub(self.length(ip, s, d), self.get(ip, s, d, self.pos))]


def encoder(c, p):
    rep = Bounded(c, p)
    for op in encoding.ops(c, p, rep, ('A', 'AAAA', 'PTR', 'TXT', 'SRV')):
        c.group(op.where, encoding_one, c, p, rep, op)


def encoding_one(c, p, rep, op):
    ip = op.ip

    def local(kd, stack, span, s):
        # strings are registered by the user, and of at most 255 bytes
        if op.sec == 'Question' or op.rty != 'TXT':
            return False
        mine = subterms(op.rec)
        q = s.copy()
        return not all(q.add_ge0(sub(I(255), a)) for f in s.facts for a, _ in f[1] if a.op == 'len' and subterms(a) & mine)
    verdicts(c, ip, op.b, op.where, skip=local)
    for s, v in op.res:
        d1 = ip.load(s, op.root, ())
        bad = [x for x in rep.bounds(ip, s, d1) if not s.entails(x)]
        c.ob(True if not bad else False if firm(ip, s) and all(not s.copy().add_ge0(x) for x in bad) else None, 'an encoder writes within its buffer and counts what it wrote', op.where, show(bad[0])[:80] if bad else '')


def listener(c, crate, path, item):
    L = services.Listen(c, crate, path, item)
    use(L.p)
    verdicts(c, L.ip, L.b, L.where, skip=lambda kd, stack, span, s: not after_receive(L.ip, s))
    c.ob(any(kind(e) == 'recv' for s, evs, v, m in L.runs for e in evs), 'what happens with received packets is analysed', L.where, '')


def c01(c):
    """Every function that is handed received bytes, or a value decoded from them, is analysed for arbitrary arguments within the
    invariants of their types (a reader's position is within its buffer, which is shown to be kept; labels hold 1 to 63 bytes, C03; service names
    start with an underscore, C23): no explicit panic, failed unwrap, index out of bounds or arithmetic overflow is possible."""
    p = c.prog()
    for b in find_name_reader(p):
        c.group(loc(b), name_reader, c, p, b)
    for b, generic in roots(p):
        c.group('%s (%s)' % (loc(b), b['name']), entry, c, p, b, generic)
    for f in ('new', 'next', 'iter', 'answers', 'authority', 'additional', 'header'):
        c.ob(has(p, DEC + 'MessageDecoder::' + f), 'the interface the property is about exists', DEC + 'MessageDecoder::' + f)
    # the services
    def handle():
        h = services.Handle(c, p)
        verdicts(c, h.ip, h.b, h.where, skip=lambda kd, stack, span, s: kd == 'enc')
    c.group('handle_packet', handle)
    c.group('MessageEncoder', encoder, c, p)
    for path, item, crate in services.LISTEN:
        c.group(path, listener, c, crate, path, item)
    discovery.each(c, RESOLVE + DISCOVER, c01_client)
    return {'trusted': ['C03 (labels), C23 (services): invariants of the types, established there']}


PROPS = {'C01': c01}
