"""C37: printed names, entries and messages are complete and in order"""
from base import *
from util import *
import models, names, printed
from absenc import run_any, chain, decoder_summary, kind
from decoding import uniq, run, on_value, DEC, SECT
from encoding import slice_iter
from models import constbytes
from printed import shown, fmt_summaries
from wire import PK

NAME = 'uwuhi::name::DomainName'
RULE = 'a printed value is complete and in order'
REC = PK + 'records::'
FIELDS = [('A', ['addr']), ('AAAA', ['addr']), ('CNAME', ['cname']), ('MX', ['preference', 'exchange']), ('NS', ['nsdname']), ('PTR', ['ptrdname']),
          ('SRV', ['priority', 'weight', 'port', 'target']), ('SOA', ['mname', 'rname', 'serial', 'refresh', 'retry', 'expire', 'minimum_ttl'])]


def display_of(p, path):
    """the body of a type's Display"""
    for b in p.d['bodies']:
        if b.get('body') and b.get('item') == 'fmt' and '{closure' not in b['path'] and re.match(r"<%s(<'?\w+>)? as std::fmt::Display>::fmt$" % re.escape(path), b['path']):
            return b
    raise NoAnchor('no Display of %s' % path)


def interp(c, p, b, own, **o):
    ip = c.interp(p, exact=1, maxstates=400, **o)
    fmt_summaries(ip, p, b['id'])
    # a type's own other printing functions are followed
    for x in p.d['bodies']:
        if x['id'] in ip.summaries and own and re.match(r"<%s(<'?\w+>)? as " % re.escape(own), x['path']):
            del ip.summaries[x['id']]
    return ip


def flat(ip, s, evs, d=6):
    """printed pieces: ('text', bytes) | ('val', kind, value, type) | ('loop', marker) | ('?', what)"""
    out = []
    for e in evs:
        if e.op == 'loop':
            recs = ip.loops.get(e) or []
            if any(has_out(ip, x) for r in recs for x in r.evs):
                out.append(('loop', e))
        elif e.a[1][0] == 'out':
            out += piece(ip, s, e.a[1][1:], d)
    return merge(out)


def has_out(ip, e, d=6):
    if e.op == 'loop':
        return d > 0 and any(has_out(ip, x, d - 1) for r in ip.loops.get(e) or [] for x in r.evs if x is not e)
    return e.a[1][0] in ('out', 'callback')


def piece(ip, s, q, d):
    p = ip.p
    if q[0] == 'lit':
        return [('text', bytes(q[1]))]
    if q[0] != 'show':
        return [('?', q[0])]
    k, v, ty = q[1:4]
    if ty is None:
        return [('?', show(v)[:60])]
    name = p.ts(ty)
    if name == 'char':
        v = s.norm(v)
        return [('text', chr(v.a[0]).encode())] if v.op == 'int' else [('val', k, v, ty)]
    if name in ('str', 'std::string::String') and d:
        try:
            ct, off, n = ip.slice_content(s, v)
            ct = ip.subseq(s, ct, off, n)
        except Exception:
            return [('?', show(v)[:60])]
        b = constbytes(ct)
        if b is not None:
            return [('text', bytes(b))]
        if ct.op == 'printed':
            return [x for y in ct.a[0] for x in piece(ip, s, y, d - 1)]
        return [('text?', ct)]
    return [('val', k, v, ty)]


def merge(ps):
    out = []
    for q in ps:
        if q[0] == 'text' and not q[1]:
            continue
        if q[0] == 'text' and out and out[-1][0] == 'text':
            out[-1] = ('text', out[-1][1] + q[1])
        else:
            out.append(q)
    return out


def same(ip, s, a, b):
    a, b = s.norm(a), s.norm(b)
    if a is b:
        return True
    if a.op == 'slice' and b.op == 'slice':
        (x, o, n), (y, q, m) = ip.slice_content(s, a), ip.slice_content(s, b)
        return x is y and s.entails_eq(o, q) and s.entails_eq(n, m)
    if a.op == 'agg' and b.op == 'agg' and a.a[:2] == b.a[:2]:
        return all(same(ip, s, x, y) for x, y in zip(a.a[2], b.a[2]))
    try:
        return s.entails_eq(a, b)
    except Exception:
        return False


def known(v):
    return not any(t.op in ('ret', 'phi', 'havoc', 'pure', 'edited', 'collected') for t in subterms(v) | {v})


def complete(s, v):
    """may the function have printed everything when it returns this?"""
    return not (v.op == 'agg' and v.a[1] == 1)


def accessors(c, ip, s, path, accs, ref):
    """what accessors of the printed value return, by case: [(state, [value])]; the values themselves, not references to them"""
    out = [(s, [])]
    for a in accs:
        b = fn(ip.p, '%s::%s' % (path, a))
        out = [(s3, vs + [models.printed_value(printed.CtxOf(ip), s3, v, b['locals'][0])[0]]) for s2, vs in out for s3, v in run(ip, s2.copy(), b, [ref], a)]
    return out


def accessor(c, ip, s, path, ref):
    m, a = path.rsplit('::', 1)
    r = accessors(c, ip, s, m, [a], ref)
    if len(r) != 1:
        raise Unknown('%s has several outcomes' % path)
    return r[0][1][0]


def uncow(ip, s, v, ty):
    """what a Cow holds"""
    p = ip.p
    if ty is None or not p.ts(ty).startswith('std::borrow::Cow<'):
        return v
    d = s.norm(ip.discr(s, v, ty))
    if d.op != 'int':
        return v
    ft = p.fields(ty, d.a[0])
    x = ip.proj(s, v, ('f', d.a[0], 0, ft[0]))
    return models.printed_value(printed.CtxOf(ip), s, x, ft[0])[0]


def values(c, ip, s, got, want, where, names_, strict=True):
    """the printed values are the wanted ones"""
    if any(w is not None and w.ty is not None and ip.p.ts(w.ty) == 'uwuhi::service::Service' for w in want) and any(q[0] == 'text' and b'_' in q[1] for q in got):
        # the service may be printed by its parts
        s2 = s.copy()
        k = next(i for i, w in enumerate(want) if w is not None and w.ty is not None and ip.p.ts(w.ty) == 'uwuhi::service::Service')
        for s3, (n, t) in accessors(c, ip, s2, 'uwuhi::service::Service', ['name', 'transport'], on_value(ip, s2, want[k])[1]):
            for s4, d in by_kind(ip, s3, t):
                tr = b'._tcp' if ip.p.types[t.ty]['v'][d.a[0]]['n'] == 'TCP' else b'._udp'
                if not got or got[-1][0] != 'text' or k != len(want) - 1:
                    Soft(c, ip, s4).ob(None, RULE, where, brief(got))
                elif got[-1][1] != tr:
                    Soft(c, ip, s4).ob(False, RULE, where, 'the transport is printed as %r' % got[-1][1])
                else:
                    values(c, ip, s4, got[:-1], want[:k] + [n], where, names_[:k] + ['the name of the service'])
        return
    sc = Soft(c, ip, s)
    if any(q[0] in ('?', 'loop', 'text?') for q in got):
        sc.ob(None, RULE, where, 'prints %s' % brief(got))
        return
    vals = [q for q in got if q[0] == 'val']
    ok = len(vals) == len(want)
    bad = '' if ok else 'prints %d values instead of %s' % (len(vals), ', '.join(names_))
    for q, w, n in zip(vals, want, names_):
        if w is None or not ok:
            continue
        if q[1] != 'display' or not same(ip, s, uncow(ip, s, q[2], q[3]), w):
            ok, bad = False, 'prints %s%s where %s belongs' % (show(q[2])[:60], '' if q[1] == 'display' else ' (%s)' % q[1], n)
    if not ok and (not all(known(q[2]) for q in vals) or len(vals) != len(want) and any(w is not None and w is not q[2] and w in subterms(q[2]) for q in vals for w in want)):
        ok = None
    if not ok and len(vals) > len(want) and any(path_in(q[2], w) for q in vals for w in want):
        ok = None
    sc.ob(ok, RULE, where, bad)
    if ok:
        sep = all(not (x[0] == 'val' and y[0] == 'val') for x, y in zip(got, got[1:]))
        sc.ob(sep, 'printed values are separated', where, brief(got) if not sep else '')


def path_in(v, w):
    """is v a part of w?"""
    while v.op in ('fld', 'deref', 'cont') and v.a and isinstance(v.a[0], T):
        v = v.a[0]
        if v is w:
            return True
    return False


def brief(got):
    return ('%s … (%d pieces)' % (brief(got[:8]), len(got))) if len(got) > 12 else ' '.join(repr(q[1])[1:] if q[0] == 'text' else '{%s}' % show(q[2])[:40] if q[0] == 'val' else '{%s}' % q[0] for q in got)


def sequence_of(c, p, path, accs, own=None, prefix=None):
    """a Display that prints a fixed sequence of what the accessors return"""
    b = display_of(p, path)
    ip = interp(c, p, b, path)
    args, res = run_any(ip, b)
    c.account(ip)
    n = 0
    for s, v in res:
        if not complete(s, v):
            continue
        n += 1
        got = flat(ip, s, chain(s.ev))
        for s2, want in accessors(c, ip, s, path, accs, args[0]):
            values(c, ip, s2, got, want, loc(b), accs)
    c.ob(True if n else None, 'analysed', loc(b), '%d outcomes' % n)


# ---- names -------------------------------------------------------------------------------------
def name_display(c, p):
    b = display_of(p, NAME)
    D = names.tyid(p, NAME)
    ip = interp(c, p, b, NAME)
    args, res = run_any(ip, b)
    c.account(ip)
    fs = [i for i, f in enumerate(p.fields(D)) if p.types[f].get('path') == 'std::vec::Vec']
    where = loc(b)
    rule = 'a name is printed label by label, each with a dot behind it, and the root as a dot'
    n = 0
    for s, v in res:
        if not complete(s, v):
            continue
        n += 1
        ct = walk(ip, s, models.deref_load(printed.CtxOf(ip), s, args[0], D), (('f', None, fs[0], p.fields(D)[fs[0]]), ('v',)))
        ln = ip.length(ct)
        got = flat(ip, s, chain(s.ev))
        sc = Soft(c, ip, s)
        if s.entails_eq(ln, I(0)):
            sc.ob(True if got == [('text', b'.')] else None if any(q[0] in ('?', 'loop', 'text?') for q in got) else False, rule, where, 'the root is printed as %s' % brief(got))
            continue
        loops = [q[1] for q in got if q[0] == 'loop']
        if not loops:
            ok = None if any(q[0] in ('?', 'text?') for q in got) or any(q[0] == 'val' and not known(q[2]) for q in got) else False
            k = next((k for k in range(1, 9) if s.entails_eq(ln, I(k))), None)
            if k is not None and ok is False:
                els = [ip.proj(s, ct, ('i', I(i))) for i in range(k)]
                ok = len(got) == 2 * k and all(got[2 * i][0] == 'val' and got[2 * i][1] == 'display' and same(ip, s, got[2 * i][2], x) and got[2 * i + 1] == ('text', b'.') for i, x in enumerate(els))
            elif ok is False and any(q[0] == 'val' for q in got):
                ok = None
            sc.ob(ok, rule, where, 'a name that has labels is printed as %s' % (brief(got) or 'nothing'))
            continue
        s2 = s.copy()
        if s2.add_eq0(ln) and not any(q[0] in ('?', 'text?', 'val') for q in got) and b''.join(q[1] for q in got if q[0] == 'text') != b'.':
            sc.ob(False, rule, where, 'a name without labels is printed as %s' % brief([q for q in got if q[0] != 'loop']))
            continue
        each(c, ip, s, loops[0] if len(loops) == 1 and len(got) == 1 else None, ct, ln, where, rule, got)
    c.ob(True if n else None, 'analysed', where, '%d outcomes' % n)
    # loops that are not recognised: names of some particular lengths, with every loop unrolled
    for k in (1, 2, 3, 9, 40, 130):
        counted(c, p, b, D, fs[0], k, where, rule)


def counted(c, p, b, D, fld, k, where, rule):
    ip = interp(c, p, b, NAME, unroll=k + 2)
    st = State()
    use(p)
    args = [ip.fresh_sym('n%d#%d.%d' % (i, ip.serial, k), b['locals'][i + 1]) for i in range(b['argc'])]
    ct = walk(ip, st, models.deref_load(printed.CtxOf(ip), st, args[0], D), (('f', None, fld, p.fields(D)[fld]), ('v',)))
    if not st.add_eq0(addc(ip.length(ct), -k)):
        return
    args, res = run_any(ip, b, args, st)
    for s, v in res:
        if not complete(s, v):
            continue
        ct = walk(ip, s, models.deref_load(printed.CtxOf(ip), s, args[0], D), (('f', None, fld, p.fields(D)[fld]), ('v',)))
        got = flat(ip, s, chain(s.ev))
        sc = Soft(c, ip, s)
        if any(q[0] in ('?', 'loop', 'text?') for q in got) or any(q[0] == 'val' and not known(q[2]) for q in got):
            sc.ob(None, rule, where, 'a name of %d labels is printed as %s' % (k, brief(got)))
            continue
        els = [ip.proj(s, ct, ('i', I(i))) for i in range(k)]
        ok = len(got) == 2 * k and all(got[2 * i][0] == 'val' and got[2 * i][1] == 'display' and same(ip, s, got[2 * i][2], x) and got[2 * i + 1] == ('text', b'.') for i, x in enumerate(els))
        sc.ob(ok, rule, where, 'a name of %d labels is printed as %s' % (k, brief(got)))


def each(c, ip, s, m, ct, ln, where, rule, got):
    sc = Soft(c, ip, s)
    if m is None:
        extra = [q for q in got if q[0] == 'text']
        sc.ob(False if extra and all(q[0] in ('text', 'loop') for q in got) and sum(q[0] == 'loop' for q in got) == 1 and step_ok(c, ip, s, [q[1] for q in got if q[0] == 'loop'][0], ct, ln) is True else None,
              rule, where, 'prints %s' % brief(got))
        return
    ok = step_ok(c, ip, s, m, ct, ln)
    sc.ob(ok if isinstance(ok, bool) or ok is None else False, rule, where, ok if isinstance(ok, str) else '')


def step_ok(c, ip, s, m, ct, ln):
    """each step of the loop prints the next element and a dot -> True, None or what else it prints"""
    recs = ip.loops.get(m) or []
    its = [(r, [(q[1], q[2]) if False else ('v', q[2]) for q in flat(ip, r.back, r.evs) if q[0] == 'val']) for r in recs]
    v, st = slice_iter(ip, s, (None, None, its, m, ip.loop_init.get(m, []), None), ct, I(0), ln)
    if v is None:
        return None
    for r, parts, w in st:
        el = ip.proj(r.back, ct, ('i', w))
        ps = flat(ip, r.back, r.evs)
        vals = [q for q in ps if q[0] == 'val']
        if any(q[0] in ('?', 'loop', 'text?') for q in ps):
            return None
        if not (len(ps) == 2 and ps[0][0] == 'val' and ps[0][1] == 'display' and same(ip, r.back, ps[0][2], el) and ps[1] == ('text', b'.')):
            return 'a label is printed as %s' % (brief(ps) or 'nothing')
    return True


# ---- entries -----------------------------------------------------------------------------------
def record_display(c, p):
    """a resource record: name, TTL, class, type, and the data"""
    T_ = DEC + 'ResourceRecord'
    b = display_of(p, T_)
    ip = interp(c, p, b, T_)
    en = [x for x in p.d['bodies'] if x.get('body') and npath(x['path']) == T_ + '::as_enum']
    for x in en:
        ip.summaries[x['id']] = as_enum
    args, res = run_any(ip, b)
    c.account(ip)
    accs = ['name', 'ttl', 'class', 'type_']
    n = 0
    for s, v in res:
        if not complete(s, v):
            continue
        n += 1
        where = loc(b)
        got = flat(ip, s, chain(s.ev))
        want = [accessor(c, ip, s, '%s::%s' % (T_, a), args[0]) for a in accs]
        head, tail, k = [], [], 0
        for q in got:
            if k < 4 or q[0] == 'text' and not tail:
                head.append(q)
            else:
                tail.append(q)
            k += q[0] == 'val'
        values(c, ip, s, head, want, where, accs)
        en = [e.a[1][1] for e in chain(s.ev) if kind(e) == 'as_enum']
        sc = Soft(c, ip, s)
        if len(en) != 1:
            sc.ob(None, RULE, where, 'the data is not read by as_enum')
            continue
        data = [q for q in tail if q[0] == 'val']
        x = en[0]
        t = x.ty
        if s.entails_eq(ip.discr(s, x, x.ty), I(0)):
            raw = accessor(c, ip, s, T_ + '::rdata', args[0])
            ok = len(data) == 1 and same(ip, s, data[0][2], raw)
            sc.ob(ok or (None if any(q[0] != 'val' and q[0] != 'text' for q in tail) or any(not known(q[2]) for q in data) or any(raw in subterms(q[2]) and not printed.NUM.match(p.ts(q[3])) for q in data) else False), RULE, where, 'data of an unknown type: %s' % brief(tail))
            continue
        r = ip.proj(s, x, ('f', 1, 0, p.fields(t, 1)[0]))
        if not tail:
            # something is left out
            s2 = s.copy()
            sc.ob(False if s2.assume(eq0(addc(ip.discr(s2, x, x.ty), -1)), True) else None, RULE, where, 'the data is not printed at all')
            continue
        if s.entails_eq(ip.discr(s, r, r.ty), I(0)):
            rec = ip.proj(s, r, ('f', 0, 0, p.fields(r.ty, 0)[0]))
            ok = len(data) == 1 and data[0][1] == 'display' and same(ip, s, data[0][2], rec)
            sc.ob(ok or (None if any(q[0] not in ('val', 'text') for q in tail) or any(not known(q[2]) for q in data) else False), RULE, where, 'record data: %s' % brief(tail))
        elif s.entails_eq(ip.discr(s, r, r.ty), I(1)):
            sc.ob(True if tail else False, RULE, where, 'data that cannot be decoded: %s' % brief(tail))
        else:
            sc.ob(None, RULE, where, 'data: %s' % brief(tail))
    c.ob(True if n else None, 'analysed', loc(b), '%d outcomes' % n)


def as_enum(c, st, args):
    v = mk('sym', uniq('as_enum'), ty=c.dty)
    c.ip.emit(st, 'as_enum', v)
    return [(st, v)]


def enum_display(c, p):
    """record data prints the data of its kind"""
    b = display_of(p, REC + 'Record')
    ip = interp(c, p, b, REC + 'Record')
    args, res = run_any(ip, b)
    c.account(ip)
    ty = p.types[b['locals'][1]]['e']
    seen = set()
    for s, v in res:
        if not complete(s, v):
            continue
        x = models.deref_load(printed.CtxOf(ip), s, args[0], ty)
        got = flat(ip, s, chain(s.ev))
        k = next((i for i in range(len(p.types[ty]['v'])) if s.entails_eq(ip.discr(s, x, x.ty if x.ty is not None else ty), I(i))), None)
        if k is None:
            c.ob(None, RULE, loc(b), 'the kind is not decided')
            continue
        seen.add(k)
        ft = p.fields(ty, k)
        values(c, ip, s, got, [ip.proj(s, x, ('f', k, 0, ft[0]))], loc(b), [p.types[ty]['v'][k]['n']])
    c.ob(True if seen == set(range(len(p.types[ty]['v']))) else None, 'analysed', loc(b), '%d kinds' % len(seen))


def service_display(c, p):
    """a service: its name, a dot, and the label of its transport"""
    S_ = 'uwuhi::service::Service'
    b = display_of(p, S_)
    ip = interp(c, p, b, S_)
    args, res = run_any(ip, b)
    c.account(ip)
    n = 0
    for s, v in res:
        if not complete(s, v):
            continue
        for s2, (name, tr) in accessors(c, ip, s, S_, ['name', 'transport'], args[0]):
            for s2, d in by_kind(ip, s2, tr):
                n += 1
                service_text(c, ip, s2, flat(ip, s2, chain(s.ev)), name, tr, d, b)
    c.ob(True if n else None, 'analysed', loc(b), '%d outcomes' % n)


def by_kind(ip, s, v):
    """the cases of an enum: [(state, variant)]"""
    if v.ty is None:
        raise Unknown('type of %s' % show(v))
    d = s.norm(ip.discr(s, v, v.ty))
    out = []
    for k in range(len(ip.p.types[v.ty]['v'])):
        s2 = s.copy()
        if s2.assume(eq0(addc(d, -k)), True):
            out.append((s2, I(k)))
    return out


def service_text(c, ip, s2, got, name, tr, d, b):
    p = ip.p
    sc = Soft(c, ip, s2)
    if any(q[0] in ('?', 'loop', 'text?') for q in got) or d.op != 'int':
        sc.ob(None, RULE, loc(b), 'prints %s' % brief(got))
        return
    want = b'._tcp' if p.types[tr.ty]['v'][d.a[0]]['n'] == 'TCP' else b'._udp'
    ok = len(got) == 2 and got[0][0] == 'val' and same(ip, s2, got[0][2], name) and got[1] == ('text', want)
    sc.ob(ok or (None if sum(q[0] == 'val' for q in got) > 1 or any(q[0] == 'val' and not known(q[2]) for q in got) else False), RULE, loc(b), 'a service is printed as %s' % brief(got))


# ---- messages ----------------------------------------------------------------------------------
FLAGS = ['is_query', 'is_truncated', 'is_authority', 'is_recursion_desired', 'is_recursion_available']


def message(c, p):
    bs = [b for b in p.d['bodies'] if b.get('body') and '{closure' not in b['path'] and npath(b['path']) == DEC + 'MessageDecoder::format']
    if not bs:
        c.ob(None, 'analysed', DEC + 'MessageDecoder::format', 'there is no such function any more')
        return
    b = bs[0]
    where = loc(b)
    ip = interp(c, p, b, None)
    before = set(ip.summaries)
    decoder_summary(ip, p, True)
    for i in set(ip.summaries) - before:
        ip.summaries[i] = ended(ip.summaries[i])
    args, res = run_any(ip, b)
    c.account(ip)
    heads = {}
    order = set()
    n = 0
    rule = 'a listing has the header and every entry of every section in order'
    for s, v in res:
        evs = chain(s.ev)
        cb = [e for e in evs if kind(e) == 'callback']
        n += 1
        sc = Soft(c, ip, s)
        ms = [e for e in evs if e.op == 'loop' and listing_loop(ip, e)]
        if not cb:
            # nothing was printed
            sc.ob(None if ms else False, rule, where, 'nothing is listed')
            continue
        if cb[0].a[1][2] and cb[0].a[1][2][0].op == 'fmtargs' and cb[0].a[1][2][0].a:
            header(c, ip, p, s, args, cb[0].a[1][2][0].a[0], where, heads)
        else:
            sc.ob(None, rule, where, 'the header line is %s' % show(cb[0].a[1][2][0])[:60])
        if any(kind(e) == 'dec.err' for e in evs):
            sc.ob(True if not (v.op == 'agg' and v.a[1] == 0) else False, 'a listing ends with an error at the first entry that cannot be decoded', where, 'returns %s' % show(v)[:60])
        done = [x for x in evs if kind(x) == 'dec.end']
        if v.op == 'agg' and v.a[1] == 0:
            got = [x.a[1][1] for x in done]
            got = [x for i, x in enumerate(got) if i == 0 or got[i - 1] != x]
            sc.ob(True if got == SECT else None if None in got else False, rule, where, 'sections listed: %s' % ', '.join(str(x) for x in got))
        tail = [e for e in evs if kind(e) in ('dec.entry', 'callback')][1:]
        if tail:
            pairs(c, ip, s, tail, where, rule, v.op == 'agg' and v.a[1] == 0)
    for m, recs in list(ip.loops.items()):
        if not (isinstance(m, T) and m.op == 'loop'):
            continue
        for r in recs:
            if any(kind(e) == 'dec.err' for e in r.evs):
                Soft(c, ip, r.back).ob(False, 'a listing ends with an error at the first entry that cannot be decoded', where, 'goes on after an error')
            es = [e for e in r.evs if kind(e) in ('dec.entry', 'callback')]
            if es:
                pairs(c, ip, r.back, es, where, rule, True)
    for f, g in heads.items():
        for k in range(len(FLAGS)):
            o = f[:k] + (1 - f[k],) + f[k + 1:]
            if o in heads and f < o:
                c.ob(False if heads[o] & g else True, 'the header line shows every flag', where, FLAGS[k] if heads[o] & g else '')
    c.ob(True if n else None, 'analysed', where, '%d outcomes, %d kinds of headers' % (n, len(heads)))


def ended(next_):
    """after the last entry of a section there is no further one"""
    def f(c, st, args):
        old = [e.a[1][1] for e in chain(st.ev) if kind(e) == 'dec.end']
        out = []
        for s, v in next_(c, st.copy(), args):
            e = s.ev
            if kind(e) == 'dec.end' or e.a[1][1] not in old:
                out.append((s, v))
        return out
    return f


def listing_loop(ip, m):
    return any(kind(e) == 'dec.entry' for r in ip.loops.get(m) or [] for e in r.evs)


def pairs(c, ip, s, es, where, rule, whole):
    """entries and lines alternate, and each line shows the entry before it"""
    sc = Soft(c, ip, s)
    i = 0
    while i < len(es):
        if kind(es[i]) != 'dec.entry':
            a = es[i].a[1][2]
            sc.ob(None if not a or a[0].op != 'fmtargs' or not a[0].a else False, rule, where, 'a line that belongs to no entry')
            return
        v = es[i].a[1][2]
        nxt = es[i + 1] if i + 1 < len(es) else None
        if nxt is None or kind(nxt) != 'callback':
            # left out (or, on the way out of the function, not listed yet)
            sc.ob(False if whole else None, rule, where, 'an entry of the %s section is not listed' % es[i].a[1][1])
            return
        a = nxt.a[1][2]
        if not a or a[0].op != 'fmtargs' or not a[0].a:
            sc.ob(None, rule, where, 'a line is %s' % (show(a[0])[:60] if a else ''))
            return
        ps = merge([x for q in a[0].a[0] for x in piece(ip, s, q, 6)])
        vals = [q for q in ps if q[0] == 'val']
        ok = any(q[1] == 'display' and same(ip, s, q[2], v) for q in vals)
        if not ok:
            # the parts of the entry instead
            ok = None if any(q[0] in ('?', 'text?') for q in ps) or any(not known(q[2]) or v in subterms(q[2]) for q in vals) else False
        sc.ob(ok, rule, where, 'the line of an entry of the %s section shows %s' % (es[i].a[1][1], brief(ps)))
        i += 2


def header(c, ip, p, s, args, pieces, where, heads):
    """the header's line shows the ID, the opcode and the response code, and depends on every flag"""
    sc = Soft(c, ip, s)
    ps = merge([x for q in pieces for x in piece(ip, s, q, 6)])
    D = fn(p, DEC + 'MessageDecoder::header')
    s0 = s.copy()
    ref = on_value(ip, s0, args[0])[1]
    hs = run(ip, s0, D, [ref], 'header')
    if len(hs) != 1:
        sc.ob(None, 'the header line is complete', where, 'header() has several outcomes')
        return
    hv = hs[0][1] if p.tk(D['locals'][0]) == 'ref' else on_value(ip, hs[0][0], hs[0][1])[1]
    vals = [q for q in ps if q[0] == 'val']
    for nm in ('id', 'opcode', 'rcode'):
        w = accessor(c, ip, hs[0][0], PK + 'Header::' + nm, hv)
        ok = any(same(ip, s, q[2], w) for q in vals)
        sc.ob(ok or (None if any(q[0] in ('?', 'text?') for q in ps) or any(not known(q[2]) for q in vals) else False), 'the header line is complete', where, '%s (%s) is missing: %s' % (nm, show(w)[:80], brief(ps)))
    key = []
    for f in FLAGS:
        b = fn(p, PK + 'Header::' + f)
        rs = run(ip, hs[0][0].copy(), b, [hv], f)
        if len(rs) == 1:
            s2, w = rs[0]
            w = s2.norm(w)
            if w.op != 'int':
                w0 = s.copy().assume(w, True), s.copy().assume(w, False)
                if w0 == (True, True) and not any(q[0] in ('?', 'text?', 'loop') for q in ps):
                    sc.ob(False, 'the header line shows every flag', where, '%s makes no difference: %s' % (f, brief(ps)))
                w = I(1) if w0 == (True, False) else I(0) if w0 == (False, True) else None
            key.append(w.a[0] if w is not None else None)
        else:
            key.append(None)
    if None in key or any(q[0] in ('?', 'text?', 'loop') for q in ps):
        return
    heads.setdefault(tuple(key), set()).add(tuple(q[1] if q[0] == 'text' else None for q in ps))


def tap(c, p):
    """the tap logs every line of the listing"""
    T_ = 'uwuhi::tap::SyncTap'
    fm = [b for b in p.d['bodies'] if b.get('body') and '{closure' not in b['path'] and npath(b['path']) == DEC + 'MessageDecoder::format']
    root = next((b for b in p.d['bodies'] if b.get('body') and npath(b['path']) == T_ + '::process'), None)
    if root is None or not fm:
        c.ob(None, 'analysed', T_, 'no function that processes a packet')
        return
    where = loc(root)
    ip = interp(c, p, root, None)

    ln = mk('fmtargs', (('line',),))

    def listing(cc, st, args):
        out = []
        for s2, r in ip.call_value(st, cc.fr, args[1], [ln], None, cc.site):
            ip.emit(s2, 'listed')
            out += models.opaque_result(cc, s2, 'format')
        return out
    for b in fm:
        ip.summaries[b['id']] = listing
    args, res = run_any(ip, root)
    c.account(ip)
    rule = 'the tap logs every line of a listing'
    for s, v in res:
        evs = chain(s.ev)
        sc = Soft(c, ip, s)
        if any(kind(e) == 'listed' for e in evs):
            i = [kind(e) for e in evs].index('listed')
            outs = [q for e in evs[:i] if e.op == 'ev' and e.a[1][0] == 'out' for q in piece(ip, s, e.a[1][1:], 6)]
            line = any(x is ln or x == 'line' for q in outs for x in q) or any(e.op == 'ev' and e.a[1][0] == 'out' and any(x == 'line' for x in e.a[1]) for e in evs[:i])
            off = any(isinstance(k, T) and any(t.op in ('logon', 'loglevel', 'loglev') for t in subterms(k) | {k}) and x == 0 for k, x in s.eqc.items())
            sc.ob(True if line or off else None if any(kind(e) in ('call', 'callback') for e in evs[:i]) or any(q[0] in ('?', 'text?') for q in outs) else False, rule, where, 'a line is not logged')
        elif v.op == 'agg' and v.a[1] == 0:
            sc.ob(False, rule, where, 'a packet is processed without being listed')


def c37(c):
    """Every printing function is run on an arbitrary value; what it prints is the sequence of its pieces, with texts spelled out and values as terms. The values must be
    the ones the type's accessors return, in order, with text between them. Loops must go over all elements and print each. The listing of a message is followed through
    all sections with the decoder's entries as events."""
    p = c.prog()
    c.group(NAME + ' Display', name_display, c, p)
    for nm, accs in FIELDS:
        c.group(REC + nm, sequence_of, c, p, REC + nm, accs)
    c.group(DEC + 'Question', sequence_of, c, p, DEC + 'Question', ['qname', 'qclass', 'qtype'])
    c.group(DEC + 'ResourceRecord', record_display, c, p)
    c.group(REC + 'Record', enum_display, c, p)
    c.group('uwuhi::service::ServiceInstance', sequence_of, c, p, 'uwuhi::service::ServiceInstance', ['instance_name', 'service'])
    c.group('uwuhi::service::Service', service_display, c, p)
    c.group(DEC + 'MessageDecoder::format', message, c, p)
    c.group('uwuhi::tap::SyncTap', tap, c, p)


PROPS = {'C37': c37}
