"""C36: what is printed or logged of data from the network holds no control characters"""
import re
from base import *
from util import *
import models
from models import constbytes
from absenc import run_any, decoder_summary

NUM = re.compile(r'^(u8|u16|u32|u64|u128|usize|i8|i16|i32|i64|i128|isize|bool|f32|f64)$')
SAFE = ('std::net::', 'std::ascii::EscapeDefault', 'std::slice::EscapeAscii', 'std::io::Error', 'std::string::FromUtf8Error', 'std::str::Utf8Error', 'std::fmt::Error', 'std::num::', 'std::net::AddrParseError',
        'std::fmt::Arguments', 'std::char::EscapeDefault', 'std::char::EscapeDebug', 'std::str::EscapeDebug', 'std::str::EscapeDefault', 'std::array::TryFromSliceError')
TEXT = ('str', 'std::string::String', 'char')


def kind_of(p, t, d=6):
    """is what the type's Display prints 'safe', 'text' that must be looked at, or unknown (None)?"""
    ty = p.types[t]
    name = p.ts(t)
    if NUM.match(name) or name == '!':
        return 'safe'
    if name in TEXT:
        return 'text'
    if ty.get('k') == 'ref' and d:
        return kind_of(p, ty['e'], d - 1)
    path = ty.get('path') or name
    if path.startswith(SAFE):
        return 'safe'
    if path.startswith(('uwuhi::', 'uwuhi_async::')):
        return 'safe'
    if path in ('std::borrow::Cow', 'std::boxed::Box', 'std::rc::Rc', 'std::sync::Arc') and ty.get('args') and d:
        ks = {kind_of(p, a, d - 1) for a in ty['args'][:1]}
        return ks.pop()
    return None


def calls(b):
    """(block, callee, argument count) of every call of a body"""
    for i, bb in enumerate(b['body']):
        def look(x):
            if isinstance(x, dict):
                if 'path' in x and 'crate' in x and 'name' in x:
                    yield x
                for y in x.values():
                    yield from look(y)
            elif isinstance(x, list):
                for y in x:
                    yield from look(y)
        yield from ((i, f) for f in look(bb))


WRITES = re.compile(r'(Formatter|fmt::Write)(<[^>]*>)?(::<[^>]*>)?>?::(write_str|write_char|pad)$')
DISPLAY = re.compile(r'<(.+) as std::fmt::Display>::fmt$')


def prints_text(path):
    m = DISPLAY.match(path)
    return bool(WRITES.search(path) or re.search(r'::(write_str|write_char)$', path) or m and not NUM.match(m.group(1)) and not m.group(1).startswith(SAFE + ('uwuhi',)))


def sites(c, p):
    """roots that have to be run, and obligations for everything decided by its type"""
    roots = {}
    byp = {}
    for b in p.d['bodies']:
        if b.get('body'):
            byp.setdefault(npath(b['path']), b)
    for b in p.d['bodies']:
        if not b.get('body') or not b.get('local') or 'tests::' in b['path']:
            continue
        n = text = 0
        for i, f in calls(b):
            path = npath(f.get('rpath') or f['path'])
            if 'rt::Argument' in path and f['name'].startswith('new_'):
                n += 1
                if f['name'] != 'new_display' or not f.get('args'):
                    continue
                k = kind_of(p, f['args'][0])
                if k == 'text':
                    text += 1
                elif k is None:
                    c.ob(None, 'printed types are known', '%s (%s)' % (b['path'], b.get('span')), p.ts(f['args'][0]))
            elif prints_text(path):
                n += 1
                text += 1
        if n:
            c.ob(True, 'printed values have types whose printed form is harmless, or are looked at', '%s (%s)' % (b['path'], b.get('span')), '')
        if text:
            r = b
            while '{closure' in npath(r['path']):
                q = npath(r['path']).rsplit('::{closure', 1)[0]
                nr = byp.get(q)
                if nr is None:
                    break
                r = nr
            roots[r['id']] = r
    return roots


def fmt_summaries(ip, p, root):
    """what other printing functions print is looked at on its own"""
    for b in p.d['bodies']:
        if b.get('body') and b.get('item') == 'fmt' and b['id'] != root and '{closure' not in b['path'] and 'std::fmt::' in (b.get('trait') or b['path']):
            ip.summaries[b['id']] = shown
    ip.opts['fmt'] = 1
    inspecting(ip)
    ip.outs = []


def shown(c, st, args):
    v, ty = models.printed_value(c, st, args[0], c.atys[0])
    models.out_pieces(c, st, [('show', 'display', v, ty, None)])
    return [(st, models.fresh(c, st, 'fmt', c.dty))]


def root_one(c, p, b):
    ip = c.interp(p, exact=1, maxstates=200)
    decoder_summary(ip, p, True)
    fmt_summaries(ip, p, b['id'])
    run_any(ip, b)
    c.account(ip)
    pub = bool(b.get('pub')) and not b.get('trait')
    judge(c, ip, p, b, ip.outs, pub)


def judge(c, ip, p, b, outs, pub=False):
    rule = 'data from the network is escaped when it is printed'
    seen = set()
    for s, q, cc in outs:
        ok = piece_ok(ip, s, q, pub)
        where = '%s (%s)' % (b['path'], cc.site[2] if len(cc.site) > 2 and cc.site[2] else b.get('span'))
        k = (where, ok if ok is not True else str(q[0]))
        if k not in seen:
            seen.add(k)
            Soft(c, ip, s).ob(ok, rule, where, 'prints %s' % (show(q[2])[:100] if q[0] == 'show' and isinstance(q[2], T) else q[0]))


def piece_ok(ip, s, q, pub=False):
    p = ip.p
    if q[0] in ('lit', 'debug', 'args'):
        return True
    if q[0] != 'show':
        return None
    kind, v, ty = q[1], q[2], q[3]
    if kind != 'display':
        return True
    name = p.ts(ty) if ty is not None else ''
    if name == 'char':
        return char_ok(s, v)
    if name.startswith('std::borrow::Cow<') and v.op == 'agg':
        x, xt = v.a[2][0], p.fields(v.a[0], v.a[1])[0]
        return piece_ok(ip, s, ('show', kind) + models.printed_value(CtxOf(ip), s, x, xt), pub)
    if name not in ('str', 'std::string::String'):
        return True if ty is not None and kind_of(p, ty) == 'safe' else None
    try:
        ct, off, n = ip.slice_content(s, v)
        return text_ok(ip, s, ip.subseq(s, ct, off, n), pub)
    except Exception:
        return None


class CtxOf:
    def __init__(self, ip):
        self.ip = ip


def char_ok(s, v):
    v = s.norm(v)
    if s.entails(addc(v, -0x20)) and (s.entails(addc(sub(I(0), v), 0x7e)) or s.entails(addc(v, -0xa0))):
        return True
    for lo, hi in ((0, 0x1f), (0x7f, 0x9f)):
        s2 = s.copy()
        if s2.add_ge0(addc(v, -lo)) and s2.add_ge0(addc(sub(I(0), v), hi)) and s2.norm(v).op != 'int' or v.op == 'int' and lo <= v.a[0] <= hi and v.a[0] not in (9, 10):
            return False if v.op == 'int' or direct(v) else None
    return True if v.op == 'int' else None


SOURCES = ('fld', 'deref', 'elem', 'cont', 'byteof', 'sym', 'len', 'int', 'slice', 'ref')


def direct(t, d=12):
    """does a value come straight from memory the function was given?"""
    if t.op in ('lin', 'add', 'cast', 'bits'):
        return True
    return t.op in SOURCES


def text_ok(ip, s, ct, pub, d=6):
    b = constbytes(ct)
    if b is not None:
        return all(x >= 0x20 and x != 0x7f or x in (9, 10) for x in b)
    if s.entails_eq(ip.length(ct), I(0)):
        return True
    if ct.op == 'printed':
        r = [piece_ok(ip, s, q, pub) for q in ct.a[0]]
        return False if False in r else None if None in r else True
    if ct.op == 'strfn' and d and len(ct.a) > 1 and isinstance(ct.a[1], T):
        return text_ok(ip, s, ct.a[1], pub, d - 1) if ct.a[0] in ('to_ascii_lowercase', 'to_lowercase', 'to_uppercase', 'to_ascii_uppercase', 'trim', 'from_utf8_lossy', 'to_string', 'clone') else None
    if ct.op == 'seq' and d:
        r = []
        for x in ct.a[0]:
            if x[0] == 'o':
                r.append(char_ok(s, x[1]))
            else:
                r.append(text_ok(ip, s, x[1], pub, d - 1))
        return False if False in r else None if None in r else True
    if looked_at(ip, s, ct):
        return None
    if ct.op in ('phi', 'havoc', 'ret', 'edited', 'collected', 'upd', 'wr'):
        return None
    if argument(ct):
        return True if pub else None
    return False


def argument(ct):
    """text that the caller passed"""
    for t in subterms(ct) | {ct}:
        if t.op in ('fld', 'elem', 'mapkey', 'mapval', 'phi', 'ret', 'mapget'):
            return False
    return True


def one_byte(x):
    """a search for one given byte"""
    lam = x.a[-1] if x.a else None
    return x.op in ('has', 'firstpos') and isinstance(lam, T) and lam.op == 'lam' and lam.a[1].op == 'eq0' and not any(y.op in ('u8pred', 'bits', 'ret') for y in subterms(lam.a[1]))


HARMLESS = ('len', 'isutf8', 'isascii', 'inmap', 'maplen', 'utf8err')


def looked_at(ip, s, ct):
    """was the text examined on the way, other than by searches that control characters survive?"""
    if examined(ip, s, ct, s.ev):
        return True

    def hits(t):
        if t.op in HARMLESS or one_byte(t) or ct not in subterms(t):
            return False
        return t.op not in ('lin', 'eq0', 'discr', 'cond', 'not') or any(hits(x) for x in subterms(t) if x is not t and x is not ct)
    return any(hits(a) for f in s.facts for a, _ in f[1]) or any(isinstance(k, T) and hits(k) for k in s.eqc)


def examined(ip, s, ct, ev):
    while ev is not None:
        if looks(ip, s, ct, ev):
            return True
        ev = ev.a[0]
    return False


def looks(ip, s, ct, ev, seen=()):
    if ev.op == 'loop':
        recs = ip.loops.get(ev) or []
        # a loop that prints the text itself is the one we are in: what it looked at were earlier texts
        if ev in seen or any(e.op == 'ev' and e.a[1][0] == 'out' and e.a[1][1] == 'show' and holds(ip, r.back, e.a[1][3], ct, alike) for r in recs for e in r.evs):
            return False
        return any(looks(ip, s, ct, e, seen + (ev,)) for r in recs for e in r.evs)
    if ev.a[1][0] == 'looked':
        return alike(ev.a[1][1], ct) if seen else ev.a[1][1] is ct
    return ev.a[1][0] == 'call' and any(holds(ip, s, x, ct) for x in ev.a[1][2])


def alike(a, b):
    """the same term, but for the positions loops are at"""
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T):
        return isinstance(a, tuple) and isinstance(b, tuple) and len(a) == len(b) and all(alike(x, y) for x, y in zip(a, b)) or a == b
    if {a.op, b.op} <= {'phi', 'int', 'lin', 'add'}:
        return True
    return a.op == b.op and len(a.a) == len(b.a) and all(alike(x, y) for x, y in zip(a.a, b.a))


def holds(ip, s, v, ct, same=lambda x, y: x is y):
    try:
        c2, off, n = ip.slice_content(s, v)
        return same(c2, ct) or same(ip.subseq(s, c2, off, n), ct)
    except Exception:
        return ct in subterms(v)


def inspecting(ip):
    """note the contents whose elements are looked at"""
    elem = ip.elem

    def noted(st, ct, i, *a, **k):
        if st is not None and not (isinstance(i, T) and any(one_byte(x) for x in subterms(i) | {i})):
            if not (st.ev is not None and st.ev.op == 'ev' and st.ev.a[1] == ('looked', ct)):
                ip.emit(st, 'looked', ct)
        return elem(st, ct, i, *a, **k)
    ip.elem = noted


def c36(c):
    """Every place that formats a value is listed from the program. Values whose type prints numbers, addresses, escaped bytes or one of the library's own types (looked at
    on their own) are harmless by their type; text and characters are followed to their source: constants and characters limited to printable ranges are harmless, text
    from memory or from a packet is not unless it is escaped or printed with Debug."""
    for crate in ('uwuhi', 'uwuhi_async'):
        p = c.prog(crate)
        for b in sites(c, p).values():
            c.group('%s (%s)' % (b['path'], b.get('span')), root_one, c, p, b)


PROPS = {'C36': c36}
