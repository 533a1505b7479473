"""Header bits (C09), number tables (C08), query matching (C31)."""
from base import *

PK = 'uwuhi::packet::'


def newtype(p, name, v):
    ty = p.strid[name]
    return mk('agg', ty, 0, (v,), ty=ty)


def byte(n):
    return mk('sym', n, rng=(0, 255))


class Hdr:
    def __init__(self, c, p):
        self.p = p
        self.ty = p.strid.get(PK + 'Header')
        if self.ty is None:
            raise NoAnchor('type packet::Header')
        self.n = models.sizeof(c.interp(p), self.ty)
        self.bytes = [byte('h%d' % i) for i in range(12)]

    def state(self, ip):
        st = State()
        a0 = mk('sym', 'hdr')
        st.mem[('S', a0)] = models.from_le(ip, st, self.ty, self.bytes)
        return st, a0

    def after(self, ip, st, a0):
        return models.to_le(ip, st, self.ty, ip.load(st, ('S', a0), ()))


# field -> list of (byte, low bit, width) from least significant part up
FIELDS = {'id': [(1, 0, 8), (0, 0, 8)], 'qr': [(2, 7, 1)], 'opcode': [(2, 3, 4)], 'aa': [(2, 2, 1)], 'tc': [(2, 1, 1)], 'rd': [(2, 0, 1)],
          'ra': [(3, 7, 1)], 'z': [(3, 4, 3)], 'rcode': [(3, 0, 4)], 'qdcount': [(5, 0, 8), (4, 0, 8)], 'ancount': [(7, 0, 8), (6, 0, 8)],
          'nscount': [(9, 0, 8), (8, 0, 8)], 'arcount': [(11, 0, 8), (10, 0, 8)]}
GET = {'id': 'id', 'is_response': 'qr', 'is_truncated': 'tc', 'is_recursion_desired': 'rd', 'is_recursion_available': 'ra', 'is_authority': 'aa', 'opcode': 'opcode',
       'rcode': 'rcode', 'question_count': 'qdcount', 'answer_count': 'ancount', 'authoritative_count': 'nscount', 'additional_count': 'arcount'}
SET = {'set_id': 'id', 'set_response': 'qr', 'set_truncated': 'tc', 'set_recursion_desired': 'rd', 'set_recursion_available': 'ra', 'set_authority': 'aa',
       'set_opcode': 'opcode', 'set_rcode': 'rcode'}
SETPRIV = {'set_qdcount': 'qdcount', 'set_ancount': 'ancount', 'set_nscount': 'nscount', 'set_arcount': 'arcount'}
WRAP = {'opcode': PK + 'Opcode', 'rcode': PK + 'RCode'}


def field_value(h, f):
    segs = []
    for b, lo, n in FIELDS[f]:
        segs.append((h.bytes[b], lo, n))
    return frombits(segs)


def c09(c):
    """Every public header getter is evaluated on a header of 12 unconstrained bytes and every setter on such a header and an
    unconstrained argument; in every outcome the result (resp. each of the 96 resulting header bits) must be exactly the bit of the
    input that RFC 1035 puts there."""
    p = c.prog()
    h = Hdr(c, p)
    c.ob(h.n == 12, 'the header is 12 bytes', PK + 'Header', 'size %s' % h.n)

    def getter(name, f, neg=False):
        b = fn(p, PK + 'Header::' + name)
        ip = c.interp(p)
        st, a0 = h.state(ip)
        _, res = ip.entry(b, [a0], st)
        c.account(ip)
        want = field_value(h, f)
        if not res:
            c.ob(False, 'getter returns its field', loc(b), 'never returns')
        for s, v in res:
            if f in WRAP:
                v = ip.proj(s, v, ('f', 0, 0, p.fields(p.strid[WRAP[f]])[0]))
            if f in ('qr', 'aa', 'tc', 'rd', 'ra'):
                bad = spec_bool(s, v, [([(eq0(want), neg)], True), ([(eq0(want), not neg)], False)])
                okk = not bad
            else:
                okk = same_bits(s, v, want)
            after = h.after(ip, s, a0)
            okk = okk and all(same_bits(s, x, y) for x, y in zip(after, h.bytes))
            c.ob(okk, 'getter returns exactly its field', loc(b), 'returns %s, RFC field is %s' % (show(s.norm(v)), show(want)))
        for k, stack, span, s in ip.panics:
            c.ob(False, 'getter does not panic', loc(b), '%s at %s' % (k, span))

    def setter(name, f):
        b = fn(p, PK + 'Header::' + name)
        ip = c.interp(p)
        st, a0 = h.state(ip)
        aty = b['locals'][2]
        w = sum(n for _, _, n in FIELDS[f])
        if f in WRAP:
            v = mk('sym', 'v', rng=(0, 255))
            arg = mk('agg', aty, 0, (v,), ty=aty)
        else:
            v = mk('sym', 'v' + p.ts(aty), ty=aty, rng=p.irange(aty))
            arg = v
        _, res = ip.entry(b, [a0, arg], st)
        c.account(ip)
        # expected bytes
        segs = bslice(bits_of(v), 0, w)
        if not res:
            c.ob(False, 'setter stores its field', loc(b), 'never returns')
        for s, _ in res:
            after = h.after(ip, s, a0)
            for i in range(12):
                cur = [(h.bytes[i], k, 1) for k in range(8)]
                pos = 0
                for fb, lo, n in FIELDS[f]:
                    if fb == i:
                        cur[lo:lo + n] = [x for k in range(n) for x in bslice(segs, pos + k, 1)]
                    pos += n
                want = frombits(cur)
                okk = same_bits(s, after[i], want)
                c.ob(okk, 'setter changes exactly its own field', '%s, header byte %d' % (loc(b), i), 'becomes %s, should be %s' % (show(s.norm(after[i])), show(s.norm(want))))
        for k, stack, span, s in ip.panics:
            # out-of-range arguments may be refused, in-range ones not
            s2 = s.copy()
            lim = (1 << w) - 1
            feas = s2.assume(ge0(sub(I(lim), v)), True)
            c.ob(not feas, 'setter accepts every value of its field', loc(b), '%s at %s' % (k, span))
    for n, f in GET.items():
        c.group('Header::' + n, getter, n, f)
    c.group('Header::is_query', getter, 'is_query', 'qr', True)
    for n, f in SET.items():
        c.group('Header::' + n, setter, n, f)
    for n, f in SETPRIV.items():
        if has(p, PK + 'Header::' + n):
            c.group('Header::' + n, setter, n, f)
    return {'trusted': ['RFC 1035 section 4.1.1 bit positions as tabulated in checks/wire.py']}


# ---- C08 --------------------------------------------------------------------------------------
TYPES = dict(A=1, NS=2, MD=3, MF=4, CNAME=5, SOA=6, MB=7, MG=8, MR=9, NULL=10, WKS=11, PTR=12, HINFO=13, MINFO=14, MX=15, TXT=16, RP=17, AFSDB=18, X25=19, ISDN=20, RT=21,
             NSAP=22, NSAP_PTR=23, SIG=24, KEY=25, PX=26, GPOS=27, AAAA=28, LOC=29, NXT=30, EID=31, NIMLOC=32, SRV=33, ATMA=34, NAPTR=35, KX=36, CERT=37, A6=38, DNAME=39, SINK=40,
             OPT=41, APL=42, DS=43, SSHFP=44, IPSECKEY=45, RRSIG=46, NSEC=47, DNSKEY=48, DHCID=49, NSEC3=50, NSEC3PARAM=51, TLSA=52, SMIMEA=53, HIP=55, NINFO=56, RKEY=57,
             TALINK=58, CDS=59, CDNSKEY=60, OPENPGPKEY=61, CSYNC=62, ZONEMD=63, SVCB=64, HTTPS=65, SPF=99, UINFO=100, UID=101, GID=102, UNSPEC=103, NID=104, L32=105, L64=106,
             LP=107, EUI48=108, EUI64=109, TKEY=249, TSIG=250, URI=256, CAA=257, AVC=258, DOA=259, AMTRELAY=260, TA=32768, DLV=32769)
QTYPES = dict(TYPES, IXFR=251, AXFR=252, MAILB=253, MAILA=254, ALL=255, ANY=255)
CLASSES = dict(IN=1, CS=2, CH=3, HS=4, INTERNET=1, CHAOS=3, HESIOD=4)
QCLASSES = dict(CLASSES, NONE=254, ANY=255)
OPCODES = dict(QUERY=0, IQUERY=1, STATUS=2, NOTIFY=4, UPDATE=5, DSO=6)
RCODES = dict(NO_ERROR=0, FORM_ERR=1, SERV_FAIL=2, NX_DOMAIN=3, NOT_IMP=4, REFUSED=5, YX_DOMAIN=6, YX_RR_SET=7, NX_RR_SET=8, NOT_AUTH=9, NOT_ZONE=10, DSO_TYPE_NI=11,
              BAD_VERS=16, BAD_SIG=16, BAD_KEY=17, BAD_TIME=18, BAD_MODE=19, BAD_NAME=20, BAD_ALG=21, BAD_TRUNC=22, BAD_COOKIE=23)
TABLES = {'Type': TYPES, 'QType': QTYPES, 'Class': CLASSES, 'QClass': QCLASSES, 'Opcode': OPCODES, 'RCode': RCODES}
# constants the library had when the tables were checked by hand: losing one would make the rule vacuous
MINCOUNT = {'Type': 52, 'QType': 56, 'Class': 4, 'QClass': 5, 'Opcode': 5, 'RCode': 21}
RECORDS = ['A', 'AAAA', 'CNAME', 'MX', 'NS', 'PTR', 'TXT', 'SRV', 'SOA']


def const_int(v):
    while isinstance(v, dict) and 'agg' in v and len(v['f']) == 1:
        v = v['f'][0]
    return int(v['int']) if isinstance(v, dict) and 'int' in v else None


def c08(c):
    """The compile-time value of every associated constant of the number newtypes is compared with the IANA registry; every supported
    record is tracked from its number through RecordData::TYPE, Record::record_type and the dispatch of ResourceRecord::as_enum."""
    p = c.prog()
    vals = {}
    for k in p.d['consts']:
        pre, _, nm = k['path'].rpartition('::')
        if not pre.startswith(PK) or not k.get('pub'):
            continue
        t = pre[len(PK):]
        if t in TABLES and p.ts(k['ty']) == PK + t:
            v = const_int(k['v'])
            vals.setdefault(t, {})[nm] = v
            want = TABLES[t].get(nm)
            if want is None:
                c.ob(None, 'named number is the IANA number', k['path'], 'no registry entry for this name in the table')
            else:
                c.ob(v == want, 'named number is the IANA number', k['path'], 'is %s, assigned %s' % (v, want))
    for t, n in MINCOUNT.items():
        c.ob(len(vals.get(t, {})) >= n, 'all named numbers found', PK + t, '%d constants, expected at least %d' % (len(vals.get(t, {})), n))
    for a, b in (('Type', 'QType'), ('Class', 'QClass')):
        for nm, v in vals.get(a, {}).items():
            if nm in vals.get(b, {}):
                c.ob(vals[b][nm] == v, 'record and query numbers of one name agree', PK + a + '::' + nm, '%s vs %s' % (v, vals[b][nm]))
    # RecordData::TYPE
    got = {}
    for k in p.d['consts']:
        if k['name'] == 'TYPE' and (k.get('trait') or '').endswith('RecordData'):
            nm = k['self'].split('::')[-1].split('<')[0]
            got[nm] = const_int(k['v'])
            c.ob(got[nm] == TYPES.get(nm), 'RecordData::TYPE is the number of the record\'s name', k['path'], 'is %s, assigned %s' % (got[nm], TYPES.get(nm)))
    for nm in RECORDS:
        c.ob(nm in got, 'every supported record has a type', 'records::' + nm, '')
    rty = [i for i, t in enumerate(p.types) if t.get('path') == PK + 'records::Record' and t['k'] == 'enum']
    if not rty:
        raise NoAnchor('records::Record')
    variants = [v['n'] for v in p.types[rty[0]]['v']]
    c.ob(set(RECORDS) <= set(variants), 'every supported record is a variant of Record', 'records::Record', str(variants))

    def rectype():
        b = fn(p, PK + 'records::Record::record_type')
        ip = c.interp(p)
        a0 = mk('sym', 'rec', ty=b['locals'][1])
        _, res = ip.entry(b, [a0])
        c.account(ip)
        seen = set()
        for s, v in res:
            d = s.norm(mk('discr', ip.load(s, ('S', a0), ())))
            v = ip.proj(s, v, ('f', 0, 0, p.fields(p.strid[PK + 'Type'])[0]))
            if d.op != 'int':
                c.ob(None, 'record_type reports the type of its own name', loc(b), 'path not tied to one variant')
                continue
            nm = variants[d.a[0]]
            seen.add(nm)
            v = s.norm(v)
            c.ob(v.op == 'int' and v.a[0] == TYPES.get(nm), 'record_type reports the type of its own name', '%s, variant %s' % (loc(b), nm), 'reports %s' % show(v))
        c.ob(set(RECORDS) <= seen, 'record_type covers every record', loc(b), str(sorted(seen)))
    c.group('Record::record_type', rectype)

    def dispatch():
        b = fn(p, PK + 'decoder::ResourceRecord::as_enum')
        for num in sorted(set(TYPES.values()) | {0, 99, 255, 65535}):
            run_dispatch(b, num)

    def run_dispatch(b, num):
        ip = c.interp(p, noev=1, compact=2)
        name_summary(ip, p)
        a0 = mk('sym', 'rr', ty=b['locals'][1])
        st = State()
        ip.deref(st, a0, p.types[a0.ty]['e'])
        rr = ip.load(st, ('S', a0), ())
        f = type_field(p, rr.ty)
        v = rr
        for e in f:
            v = ip.proj(st, v, e)
        st.set_const(v, num)
        _, res = ip.entry(b, [a0], st)
        c.account(ip)
        want = [n for n, k in TYPES.items() if k == num and n in RECORDS]
        for s, v in res:
            got = outcome_variant(p, ip, s, v)
            if want:
                okk = got in ('err', variants.index(want[0]))
                if got is None:
                    okk = None
            else:
                okk = got == 'none'
            c.ob(okk, 'a record is decoded as the type its number names', '%s, type %d' % (loc(b), num), 'decodes as %s' % (variants[got] if isinstance(got, int) else got))
        if want:
            c.ob(any(outcome_variant(p, ip, s, v) == variants.index(want[0]) for s, v in res), 'a record is decoded as the type its number names', '%s, type %d' % (loc(b), num), 'never decodes successfully')
    c.group('ResourceRecord::as_enum', dispatch)
    return {'trusted': ['IANA DNS parameter registry as tabulated in checks/wire.py']}


def type_field(p, ty):
    """path to the type number inside a ResourceRecord (the only field of type packet::Type)"""
    fs = p.fields(ty)
    for i, f in enumerate(fs):
        if p.ts(f) == PK + 'Type':
            return (('f', 0, i, f), ('f', 0, 0, p.fields(f)[0]))
    raise Unknown('no type field')


def outcome_variant(p, ip, s, v):
    """of Option<Result<Record>> or Result<Record..>-like values: 'none', 'err' or the variant number"""
    for _ in range(4):
        if v.op != 'agg':
            return None
        t = p.types[v.ty] if v.ty is not None else None
        if t is None:
            return None
        if t.get('path') == PK + 'records::Record':
            return v.a[1]
        if t.get('path') == 'std::option::Option':
            if v.a[1] == 0:
                return 'none'
        elif t.get('path') == 'std::result::Result':
            if v.a[1] == 1:
                return 'err'
        else:
            return None
        v = v.a[2][0]
    return None


def find_name_reader(p):
    """functions that read a domain name from a Reader: by their type"""
    out = []
    for b in p.d['bodies']:
        if b['body'] is None or b.get('crate') != 'uwuhi' or b['argc'] != 1 or not b.get('local'):
            continue
        rt = p.types[b['locals'][0]]
        at = p.types[b['locals'][1]]
        if rt.get('path') == 'std::result::Result' and rt['args'] and p.types[rt['args'][0]].get('path') == 'uwuhi::name::DomainName' and at['k'] == 'ref' \
                and p.types[at['e']].get('path') == PK + 'decoder::Reader':
            out.append(b)
    return out


def reader_fields(p, rty):
    """(path to the buffer slice, path to the cursor) of a Reader value"""
    buf = pos = None

    def walk(ty, path, d):
        nonlocal buf, pos
        t = p.types[ty]
        if t['k'] == 'ref' and p.tk(t['e']) == 'slice' and buf is None:
            buf = path
        elif t['s'] == 'usize' and pos is None:
            pos = path
        elif t['k'] == 'struct' and d < 5:
            for i, f in enumerate(p.fields(ty)):
                walk(f, path + (('f', 0, i, f),), d + 1)
    for i, f in enumerate(p.fields(rty)):
        walk(f, (('f', 0, i, f),), 0)
    if buf is None or pos is None:
        raise Unknown('Reader fields')
    return buf, pos


def getp(ip, st, v, path):
    for e in path:
        v = ip.proj(st, v, e)
    return v


def name_summary(ip, p, event=False):
    """summary of the name reader (its contract is C01/C02/C27): cursor moves forward within the buffer, or an error"""
    for b in find_name_reader(p):
        ip.summaries[b['id']] = lambda c, st, args, b=b: name_read(c, st, args, b, event)
    return ip


def name_read(c, st, args, b, event):
    ip = c.ip
    p = ip.p
    rty = p.types[b['locals'][1]]['e']
    pl = ip.deref(st, args[0], rty)
    rv = ip.load(st, pl.root, pl.path)
    if rv.ty is None:
        rv.ty = rty
    bufp, posp = reader_fields(p, rty)
    buf, pos = getp(ip, st, rv, bufp), getp(ip, st, rv, posp)
    res = []
    n = ip.slice_of(st, buf, p.types[p.strid['&[u8]']]['e'] if '&[u8]' in p.strid else None)[3]
    us = p.strid['usize']
    e = st.copy()
    # error: the cursor is somewhere in the buffer
    t = models.fresh(c, e, 'name.errpos', us, rng=INTR['usize'])
    e.add_ge0(sub(n, t))
    ip.store(e, pl.root, pl.path + posp, t)
    ety = p.fields(c.dty, 1)[0]
    er = models.fresh(c, e, 'name.err', ety)
    if event:
        ip.emit(e, 'name', pos, None)
    res.append((e, models.err(c.dty, er)))
    t = models.fresh(c, st, 'name.pos', us, rng=INTR['usize'])
    if st.add_ge0(sub(n, t)) and st.add_ge0(addc(sub(t, pos), -1)):
        ip.store(st, pl.root, pl.path + posp, t)
        v = models.fresh(c, st, 'name', p.fields(c.dty, 0)[0])
        if event:
            ip.emit(st, 'name', pos, v, t, buf)
        res.append((st, models.ok(c.dty, v)))
    return res


# ---- C31 --------------------------------------------------------------------------------------
def c31(c):
    """QType::matches and QClass::matches are evaluated on unconstrained numbers; in every outcome the result must be the one the
    specification gives, for each class of inputs the specification distinguishes."""
    p = c.prog()

    def run(name, self_ty, arg_ty, cases):
        b = fn(p, PK + name)
        ip = c.interp(p, exact=1)
        q = mk('sym', 'q', ty=p.strid['u16'], rng=(0, 65535))
        t = mk('sym', 't', ty=p.strid['u16'], rng=(0, 65535))
        st = State()
        args = []
        for k, (v, ty) in enumerate(((q, self_ty), (t, arg_ty))):
            val = newtype(p, PK + ty, v)
            if p.tk(b['locals'][k + 1]) == 'ref':
                r = mk('sym', 'p%d' % k)
                st.mem[('S', r)] = val
                args.append(r)
            else:
                args.append(val)
        _, res = ip.entry(b, args, st)
        c.account(ip)
        if not res:
            c.ob(False, 'matching decides as specified', loc(b), 'never returns')
        hit = set()
        for s, v in res:
            for i, (nm, conds, exp) in enumerate(cases(q, t)):
                s2 = s.copy()
                if not all(s2.assume(k, pol) for k, pol in conds):
                    continue
                hit.add(i)
                c.ob(s2.truth(v) is exp, 'matching decides as specified', '%s, %s' % (loc(b), nm), 'result %s, expected %s' % (show(s2.norm(v)), exp))
        for i, (nm, _, _) in enumerate(cases(q, t)):
            if i not in hit:
                c.ob(False, 'matching decides as specified', '%s, %s' % (loc(b), nm), 'no outcome covers this case')
        for k, stack, span, s in ip.panics:
            c.ob(False, 'matching never panics', loc(b), '%s at %s' % (k, span))

    def qt(q, t):
        eqq = lambda n: eq0(addc(q, -n))
        eqt = lambda n: eq0(addc(t, -n))
        gen = [(eqq(n), False) for n in (252, 253, 254, 255)]
        out = [('AXFR', [(eqq(252), True)], False), ('MAILA', [(eqq(254), True)], False), ('ALL', [(eqq(255), True)], True)]
        for n in (7, 8, 9):
            out.append(('MAILB with type %d' % n, [(eqq(253), True), (eqt(n), True)], True))
        out.append(('MAILB with another type', [(eqq(253), True)] + [(eqt(n), False) for n in (7, 8, 9)], False))
        out.append(('ordinary type, equal numbers', gen + [(eq0(sub(q, t)), True)], True))
        out.append(('ordinary type, different numbers', gen + [(eq0(sub(q, t)), False)], False))
        return out

    def qc(q, t):
        return [('ANY', [(eq0(addc(q, -255)), True)], True), ('specific class, equal numbers', [(eq0(addc(q, -255)), False), (eq0(sub(q, t)), True)], True),
                ('specific class, different numbers', [(eq0(addc(q, -255)), False), (eq0(sub(q, t)), False)], False)]
    c.group('QType::matches', run, 'QType::matches', 'QType', 'Type', qt)
    c.group('QClass::matches', run, 'QClass::matches', 'QClass', 'Class', qc)
    return {'trusted': ['RFC 1035 section 3.2 meaning of query types and classes']}


PROPS = {'C09': c09, 'C08': c08, 'C31': c31}
