"""What services are called and described by: C23 (service identities), C24 (TXT attributes), C17 (registration)."""
from base import *
from util import *
import wire, names, discovery
from names import tyid, label_bytes, same_content, is_err, is_ok
from absenc import run_any, chain, kind
from decoding import run, on_value, uniq
from services import svc_interp
from interp import CallCtx

SVC = 'uwuhi::service::'
SERVICE, INSTANCE, TRANSPORT = SVC + 'Service', SVC + 'ServiceInstance', SVC + 'ServiceTransport'
PTR_ = 'uwuhi::packet::records::PTR'
SRV_ = 'uwuhi::packet::records::SRV'
DETAILS = SVC + 'InstanceDetails'
DNM = 'uwuhi::name::DomainName'


def interp(c0, p):
    ip = svc_interp(c0, p, split_eq=1, inv_elem=1, unroll=6)
    ip.struct_inv[names.LB] = names.label_inv(p)
    return ip


class Firm(Soft):
    """like Soft; nor is what rests on a loop's summary or on predicates over texts that the analyser does not look into"""
    but = ()

    def ob(self, ok, *a):
        if ok is False:
            if any(e.op == 'loop' for e in chain(self.s.ev)) or any(t.op in VAGUE and t.op not in self.but for t in dep_terms(self.s)):
                ok = None
        return Soft.ob(self, ok, *a)


class Mild(Firm):
    """for what is accepted: that a text contains something says little about how it starts"""
    but = ('contains',)


VAGUE = ('contains', 'eqic', 'peq', 'isutf8', 'startswith', 'phi', 'edited')


def one(xs, what):
    if len(xs) != 1:
        raise Unknown(what)
    return xs[0]


def observe(ip, s, b, args, what):
    """what a function that only reads returns in this state"""
    before = len(ip.panics)
    out = run(ip, s.copy(), b, args, 'observe')
    if len(ip.panics) > before or len(out) != 1:
        raise Unknown(what)
    return out[0]


def text_is(ip, s, ct, off, n, want):
    """the bytes are these: True | False (cannot be) | None"""
    if s.entails_eq(n, I(len(want))) and all(s.entails_eq(ip.elem(s, ct, addc(off, i)), I(x)) for i, x in enumerate(want)):
        return True
    return None if assume_text(ip, s, ct, off, n, want) is not None else False


def assume_text(ip, s, ct, off, n, want):
    q = s.copy()
    if not q.add_eq0(addc(n, -len(want))):
        return None
    for i, x in enumerate(want):
        if not q.add_eq0(addc(ip.elem(q, ct, addc(off, i)), -x)):
            return None
    if max(want) < 128 and any(t.op == 'isutf8' and v == 0 and same_content(ip, q, t.a[0], ip.subseq(q, ct, off, n)) for t, v in q.eqc.items()):
        return None
    return q


def deny_text(ip, s, ct, off, n, want):
    """states in which the bytes are something else"""
    out = []
    for pol in (addc(n, -len(want) - 1), sub(I(len(want) - 1), n)):
        q = s.copy()
        if q.add_ge0(pol):
            out.append(q)
    q = s.copy()
    if q.add_eq0(addc(n, -len(want))):
        for i, x in enumerate(want):
            for pol in (addc(ip.elem(q, ct, addc(off, i)), -x - 1), sub(I(x - 1), ip.elem(q, ct, addc(off, i)))):
                r = q.copy()
                if r.add_ge0(pol):
                    out.append(r)
    return out


def label_ct(ip, s, v):
    if v.op == 'ref':
        v = ip.load(s, v.a[0], v.a[1])
    return label_bytes(ip, s, v)


def under(ip, s, ct):
    """starts with an underscore: True | False (cannot) | None"""
    n = ip.length(ct)
    if s.entails(addc(n, -1)) and s.entails_eq(ip.elem(s, ct, I(0)), I(95)):
        return True
    q = s.copy()
    return None if q.add_ge0(addc(n, -1)) and q.add_eq0(addc(ip.elem(q, ct, I(0)), -95)) else False


def not_under(ip, s, ct):
    """can the state be one in which it does not?"""
    n = ip.length(ct)
    q = s.copy()
    if q.add_eq0(n):
        return True
    for pol in (-1, 1):
        q = s.copy()
        if q.add_ge0(addc(n, -1)):
            e = ip.elem(q, ct, I(0))
            if q.add_ge0(addc(e, -96) if pol > 0 else sub(I(94), e)):
                return True
    return False


def need(ok, no):
    """True if shown, False if the opposite is possible in a state that is exact (Soft decides that), else None"""
    return True if ok is True else False if no else None


# ---- C23 ----------------------------------------------------------------------------------------
def service_inv(p):
    ty = tyid(p, SERVICE)
    at = [i for i, f in enumerate(p.fields(ty)) if p.types[f].get('path') == names.LB]
    if len(at) != 1:
        raise Unknown('where a service keeps its name')

    def f(ip, t):
        st = State()
        ct = label_bytes(ip, st, ip.proj(st, t, ('f', None, at[0], p.fields(ty)[at[0]])))
        b0 = ip.elem(st, ct, I(0))
        return [addc(ip.length(ct), -1), addc(b0, -95), sub(I(95), b0)]
    return f


def c23(c):
    """from_ptr of services and instances is run on a PTR record with an arbitrary target: every identity it returns must be made of the target's first labels, whole
    and in order, with a transport its label's bytes determine, and every error needs a target that is not well-formed. That service names start with an underscore
    is a type invariant: every struct expression and every mutable access is found and analysed from each function that leads there."""
    p = c.prog()
    for path, k in ((SERVICE, 2), (INSTANCE, 3)):
        c.group(path + '::from_ptr', c23_ptr, c, p, path, k)
    c.group(SERVICE, c23_sites, c, p)
    c.group(SERVICE + '::new', c23_new, c, p, SERVICE + '::new')
    c.group(INSTANCE + '::new', c23_new, c, p, INSTANCE + '::new')
    c.group(INSTANCE + '::from_service', c23_from_service, c, p)
    c.group(TRANSPORT, c23_transport, c, p)


TR = {'_tcp': 'TCP', '_udp': 'Other'}


def variant(p, ty, name):
    for i, v in enumerate(p.types[ty]['v']):
        if v['n'] == name:
            return i
    raise NoAnchor('%s::%s' % (p.ts(ty), name))


def identity(ip, p, s, v, path):
    """label contents and transport, as the accessors show them"""
    root, ref = on_value(ip, s, v, 'identity')
    acc = ('instance_name', 'service_name') if path == INSTANCE else ('name',)
    labs = []
    for a in acc:
        s2, r = observe(ip, s, fn(p, path + '::' + a), [ref], a)
        labs.append(label_ct(ip, s2, r))
    s2, t = observe(ip, s, fn(p, path + ('::service_transport' if path == INSTANCE else '::transport')), [ref], 'transport')
    return labs, t


def c23_ptr(c0, p, path, k):
    ip = interp(c0, p)
    b = fn(p, path + '::from_ptr')
    args, res = run_any(ip, b)
    c0.account(ip)
    w = loc(b)
    tty = tyid(p, TRANSPORT)
    for kd, stack, span, s in ip.panics:
        Firm(c0, ip, s).ob(False, 'no target makes it panic', w, '%s at %s' % (kd, span))
    acc, rej = 0, 0
    for s, v in res:
        c = Firm(c0, ip, s)
        root, ref = on_value(ip, s, args[0], 'ptr')
        s1, nm = observe(ip, s, fn(p, PTR_ + '::ptrdname'), [ref], 'ptrdname')
        s1, ls = observe(ip, s1, fn(p, DNM + '::labels'), [nm], 'labels')
        ct, off, n = ip.slice_content(s1, ls)
        lab = lambda i: label_bytes(ip, s, ip.elem(s, ct, addc(off, i)))
        if is_ok(v):
            acc += 1
            q = s.copy()
            c.ob(need(s.entails(addc(n, -k - 1)), q.add_ge0(sub(I(k), n))), 'the labels must be followed by a domain', w, 'accepts a target of %d labels' % k)
            got, tr = identity(ip, p, s, v.a[2][0], path)
            for j, g in enumerate(got):
                want = lab(j)
                if same_content(ip, s, g, want):
                    c.ob(True, 'the names are the first labels, in order', w)
                else:
                    other = [i for i in range(5) if same_content(ip, s, g, lab(i))]
                    c.ob(False if other or not s.entails_eq(ip.length(g), ip.length(want)) else None, 'the names are the first labels, in order', w, 'name %d is %s' % (j, 'label %d' % other[0] if other else show(g)[:80]))
            c.ob(need(under(ip, s, got[-1]), not_under(ip, s, got[-1])), 'a service name starts with an underscore', w, 'accepts a name that does not')
            d = s.norm(ip.discr(s, tr, tty))
            t = lab(k - 1)
            for txt, var in TR.items():
                vi = p.dval(tty, variant(p, tty, var)) if hasattr(p, 'dval') else variant(p, tty, var)
                q = s.copy()
                if not q.add_eq0(addc(d, -vi)):
                    continue
                ok = text_is(ip, q, t, I(0), ip.length(t), txt.encode())
                c.ob(need(ok, ok is False or bool(deny_text(ip, q, t, I(0), ip.length(t), txt.encode()))), 'the transport is what its label says', w, '%s for a label other than %s' % (var, txt))
        elif is_err(v):
            rej += 1
            fine = []
            for txt in TR:
                q = s.copy()
                if not q.add_ge0(addc(n, -k - 1)):
                    continue
                nb, t = lab(k - 2), lab(k - 1)
                if not (q.add_ge0(addc(ip.length(nb), -1)) and q.add_eq0(addc(ip.elem(q, nb, I(0)), -95))):
                    continue
                if assume_text(ip, q, t, I(0), ip.length(t), txt.encode()) is not None:
                    fine.append(txt)
            c.ob(not fine, 'every well-formed target is accepted', w, 'an error for a target with transport %s' % fine)
        else:
            c.ob(None, 'the outcome', w, show(v)[:80])
    c0.ob(bool(acc and rej), 'targets are told apart', w, '%d outcomes accept and %d reject' % (acc, rej))


def c23_sites(c, p):
    names.type_sites(c, p, tyid(p, SERVICE), SVC.rstrip(':'), site_entry, service_inv(p), 'constructions of services found')


def site_entry(c0, p, b, inv):
    ip = interp(c0, p)
    ip.struct_inv[SERVICE] = inv
    n = [0]
    rule = 'a service name starts with an underscore'

    def made(ip, st, fr, v):
        n[0] += 1
        bad = [x for x in inv(ip, v) if not st.entails(x)]
        Mild(c0, ip, st).ob(not bad, rule, '%s, reached from %s' % (loc(fr.b), b['path']), 'made with any name')
    ip.on_agg[SERVICE] = made
    args, res = ip.entry(b)
    c0.account(ip)
    for i in range(b['argc']):
        t = p.types[b['locals'][i + 1]]
        if t['k'] == 'ref' and t.get('mut') and p.types[t['e']].get('path') == SERVICE:
            for s, _ in res:
                v = ip.load(s, ('S', args[i]), ())
                Mild(c0, ip, s).ob(all(s.entails(x) for x in inv(ip, v)), rule, loc(b), 'changes the name')
    for s, v in res:
        for t in subterms(s.norm(v)):
            if t.op == 'agg' and t.ty is not None and p.types[t.ty].get('path') == SERVICE:
                Mild(c0, ip, s).ob(all(s.entails(x) for x in inv(ip, t)), rule, loc(b), 'returns one with any name')
    if not n[0]:
        c0.ob(True, rule, loc(b))


def c23_new(c0, p, path):
    ip = interp(c0, p)
    b = fn(p, path)
    args, res = run_any(ip, b)
    c0.account(ip)
    w = loc(b)
    kind_ = INSTANCE if path.startswith(INSTANCE) else SERVICE
    for s, v in res:
        c = Firm(c0, ip, s)
        got, tr = identity(ip, p, s, v, kind_)
        for g, a in zip(got, args):
            want = label_ct(ip, s, a)
            c.ob(True if same_content(ip, s, g, want) else False if not s.entails_eq(ip.length(g), ip.length(want)) else None, 'an identity has the names given', w, show(g)[:80])
        Mild(c0, ip, s).ob(need(under(ip, s, got[-1]), not_under(ip, s, got[-1])), 'a service name starts with an underscore', w, 'accepts any name')
        want = args[-1]
        c.ob(True if s.entails_eq(ip.discr(s, tr, tr.ty), ip.discr(s, want, want.ty)) else False, 'an identity has the transport given', w, show(tr)[:80])
    for kd, stack, span, s in ip.panics:
        q = s.copy()
        ct = label_ct(ip, q, args[-2])
        fine = q.add_ge0(addc(ip.length(ct), -1)) and q.add_eq0(addc(ip.elem(q, ct, I(0)), -95))
        Firm(c0, ip, s).ob(not fine, 'every name that starts with an underscore is accepted', w, '%s at %s' % (kd, span))
    c0.ob(bool(res), 'identities can be made', w, 'never returns')


def c23_from_service(c0, p):
    ip = interp(c0, p)
    b = fn(p, INSTANCE + '::from_service')
    args, res = run_any(ip, b)
    c0.account(ip)
    w = loc(b)
    for s, v in res:
        c = Firm(c0, ip, s)
        got, tr = identity(ip, p, s, v, INSTANCE)
        want, wt = identity(ip, p, s, args[1], SERVICE)
        for g, x in zip(got, [label_ct(ip, s, args[0])] + want):
            c.ob(True if same_content(ip, s, g, x) else False if not s.entails_eq(ip.length(g), ip.length(x)) else None, 'an identity has the names given', w, show(g)[:80])
        c.ob(True if s.entails_eq(ip.discr(s, tr, tr.ty), ip.discr(s, wt, wt.ty)) else False, 'an identity has the transport given', w, show(tr)[:80])
    for kd, stack, span, s in ip.panics:
        Firm(c0, ip, s).ob(False, 'any service has instances', w, '%s at %s' % (kd, span))
    c0.ob(bool(res), 'identities can be made', w, 'never returns')


def c23_transport(c0, p):
    """to text and back"""
    tty = tyid(p, TRANSPORT)
    b = fn(p, '<%s as std::str::FromStr>::from_str' % TRANSPORT)
    ip = interp(c0, p)
    args, res = run_any(ip, b)
    c0.account(ip)
    for s, v in res:
        c = Firm(c0, ip, s)
        ct, off, n = ip.slice_content(s, args[0])
        if is_ok(v):
            d = s.norm(ip.discr(s, v.a[2][0], tty))
            for txt, var in TR.items():
                q = s.copy()
                if q.add_eq0(addc(d, -variant(p, tty, var))):
                    ok = text_is(ip, q, ct, off, n, txt.encode())
                    c.ob(need(ok, ok is False or bool(deny_text(ip, q, ct, off, n, txt.encode()))), 'the transport is what its text says', loc(b), '%s for a text other than %s' % (var, txt))
        else:
            c.ob(not any(assume_text(ip, s, ct, off, n, t.encode()) is not None for t in TR), 'both transports are recognised', loc(b), 'an error for one of them')
    for kd, stack, span, s in ip.panics:
        Firm(c0, ip, s).ob(False, 'no text makes it panic', loc(b), '%s at %s' % (kd, span))
    b = fn(p, TRANSPORT + '::to_label')
    ip = interp(c0, p)
    args, res = run_any(ip, b)
    c0.account(ip)
    for s, v in res:
        c = Firm(c0, ip, s)
        a = args[0]
        if a.op != 'agg' and p.tk(b['locals'][1]) == 'ref':
            a = ip.load(s, ('S', a), ())
        d = s.norm(ip.discr(s, a, tty))
        ct = label_ct(ip, s, v)
        for txt, var in TR.items():
            q = s.copy()
            if q.add_eq0(addc(d, -variant(p, tty, var))):
                ok = text_is(ip, q, ct, I(0), ip.length(ct), txt.encode())
                c.ob(True if ok else False if ok is False else None, 'the transport\'s label says what it is', loc(b), show(ct)[:60])
    for kd, stack, span, s in ip.panics:
        Firm(c0, ip, s).ob(False, 'every transport has a label', loc(b), '%s at %s' % (kd, span))


# ---- C24 ----------------------------------------------------------------------------------------
TXTS = SVC + 'TxtRecords'
TXTV = SVC + 'TxtRecordValue'
TXT_ = 'uwuhi::packet::records::TXT'
FOLD = ('to_ascii_lowercase', 'to_ascii_uppercase')


def c24(c):
    """from_txt is run on TXT data with any number of strings; its loop is judged per iteration, for an arbitrary map of attributes found before: the map stays as it is
    only for strings with an empty key, a key that is not text or a key that is there already, and otherwise gains exactly the string's key and value. Lookup and
    insertion are run on an arbitrary map and must use the same folding of case; iteration is followed for its first items."""
    p = c.prog()
    c.group(TXTS + '::from_txt', c24_parse, c, p)
    for f in ('get', 'add_flag', 'iter', 'is_empty', 'new'):
        c.group(TXTS + '::' + f, globals()['c24_' + f], c, p)


def content(v):
    return v.a[0] if v.op in ('vec', 'box') else v


def map_at(p):
    """path of the map in the attributes"""
    ty = tyid(p, TXTS)
    out = [(i, f) for i, f in enumerate(p.fields(ty)) if p.types[f].get('path', '').rsplit('::', 1)[-1] in ('BTreeMap', 'HashMap')]
    i, f = one(out, 'where attributes are kept')
    return ('f', None, i, f)


def folded(k):
    """the text a key is the case-folded form of"""
    k = content(k)
    if k.op == 'strfn' and k.a[0] in FOLD:
        return unfold(k.a[1])
    return unfold(k) if k.op == 'seq' and folding(k) else None


def folding(k):
    """the folding a key went through"""
    k = content(k)
    if k.op == 'strfn' and k.a[0] in FOLD:
        return k.a[0]
    fs = {folding(x[1]) if x[0] == 's' else None for x in k.a[0]} if k.op == 'seq' and k.a[0] else {None}
    return fs.pop() if len(fs) == 1 else None


def unfold(k):
    """a text before its case was folded (which moves no byte)"""
    if k.op == 'strfn' and k.a[0] in FOLD:
        return unfold(k.a[1])
    if k.op == 'seq':
        ps = tuple(('s', unfold(x[1])) + tuple(x[2:]) if x[0] == 's' else x for x in k.a[0])
        if len(ps) == 1 and ps[0][0] == 's' and ps[0][1].op == 'seq':
            return k
        return mk('seq', ps, ty=k.ty)
    return k


def attr(ip, s, v):
    """the value of an attribute: ('none',) | ('some', content) | None if the state does not say"""
    p = ip.p
    ty = v.ty
    if ty is None:
        raise Unknown('the type of an attribute')
    for _ in range(3):
        t = p.types[ty]
        if t.get('path') == 'std::option::Option':
            d = s.norm(ip.discr(s, v, ty))
            if s.entails_eq(d, I(0)):
                return ('none',)
            if s.entails_eq(d, I(1)):
                return ('some', content(ip.proj(s, ip.proj(s, v, ('f', 1, 0, p.fields(ty, 1)[0])), ('v',))))
            return None
        if t['k'] != 'struct':
            break
        i, f = one([(i, f) for i, f in enumerate(p.fields(ty)) if p.types[f].get('path') == 'std::option::Option'], 'the value of an attribute')
        v, ty = ip.proj(s, v, ('f', None, i, f)), f
    raise Unknown('the value of an attribute')


def attr_key(ip, s, v):
    """the key an attribute keeps beside the map's, if it does"""
    p = ip.p
    if v.ty is None or p.types[v.ty]['k'] != 'struct':
        return None
    l = [(i, f) for i, f in enumerate(p.fields(v.ty)) if p.types[f].get('path') == 'std::string::String']
    return content(ip.proj(s, ip.proj(s, v, ('f', None, l[0][0], l[0][1])), ('v',))) if len(l) == 1 else None


def strings_of(ip, p, s, x):
    """the content of the list of strings of TXT data, and how an element's bytes are reached"""
    ty = tyid(p, TXT_)
    i, f = one([(i, f) for i, f in enumerate(p.fields(ty)) if p.types[f].get('path') == 'std::vec::Vec'], 'the strings of TXT data')
    return ip.load(s, ('S', x), (('f', None, i, f), ('v',)))


def bytes_of(ip, s, v):
    """the bytes a Cow, vector, box or slice stands for"""
    t = ip.p.types[v.ty]
    if t.get('path') == 'std::borrow::Cow':
        d = s.norm(ip.discr(s, v, v.ty))
        for k in (0, 1):
            if s.entails_eq(d, I(k)):
                f = ip.p.fields(v.ty, k)[0]
                return bytes_of(ip, s, ip.proj(s, v, ('f', k, 0, f)))
        raise Unknown('whether bytes are borrowed')
    if t['k'] == 'ref':
        ct, off, n = ip.slice_content(s, v)
        return ip.subseq(s, ct, off, n)
    return content(ip.proj(s, v, ('v',)))


def equals_byte(pred):
    """the byte a search looks for"""
    if pred.op == 'pat':
        x = pred.a[0]
        return ord(x) if isinstance(x, str) and len(x) == 1 else x[0] if isinstance(x, bytes) and len(x) == 1 else None
    if pred.op == 'lam':
        e, q = pred.a
        if q.op == 'eq0':
            for n in (61,):
                if q is eq0(addc(e, -n)) or q is eq0(sub(I(n), e)):
                    return n
    return None


def first_eq(ip, s, E):
    """where the first '=' of a text is: ('at', pos) | ('no',) | ('unknown', was it looked for?)"""
    for k, v in s.eqc.items():
        if isinstance(k, T) and k.op == 'has' and s.entails_eq(k.a[1], I(0)) and equals_byte(k.a[3]) == 61 and same_content(ip, s, unfold(k.a[0]), E) and s.entails_eq(k.a[2], ip.length(E)):
            if v == 1:
                return ('at', mk('firstpos', *k.a[:4], rng=(0, models.ISIZE)))
            return ('no',)
    return ('unknown', any(t.op in ('has', 'firstpos', 'lastpos') for t in dep_terms(s)))


def known(ip, s, op, x, same):
    for k, v in s.eqc.items():
        if isinstance(k, T) and k.op == op and same(k):
            return v
    return None


def map_loops(ip, s, M):
    """the loops through which a map that is a φ went, innermost first, the last being the one that fills it: [(marker, [(record, map before, map after)], [(state, map on entry)])]"""
    found = []
    for e in reversed(chain(s.ev)):
        if e.op != 'loop':
            continue
        at = [(k, find_path(v, M)) for r in ip.loops.get(e) or [] for k, v in r.head.mem.items()]
        at = [(k, path) for k, path in at if path is not None]
        if not at:
            continue
        k, path = at[0]
        out = []
        for q in ip.loops[e]:
            if k not in q.head.mem or k not in q.back.mem:
                raise Unknown('the map of attributes in the loop')
            out.append((q, walk(ip, q.head, q.head.mem[k], path), walk(ip, q.back, q.back.mem[k], path)))
        init = [(s0, walk(ip, s0, s0.mem[k], path)) for s0 in ip.loop_init.get(e, []) if k in s0.mem]
        found.append((e, out, init))
        if any(m0 is not M for s0, m0 in init):
            return found
    raise Unknown('how the map of attributes is filled')


def c24_parse(c0, p):
    ip = svc_interp(c0, p, split_eq=1)
    b = fn(p, TXTS + '::from_txt')
    args, res = run_any(ip, b)
    c0.account(ip)
    w = loc(b)
    at = map_at(p)
    for kd, stack, span, s in ip.panics:
        Soft(c0, ip, s).ob(False, 'no TXT data makes it panic', w, '%s at %s' % (kd, span))
    done = set()
    folds = set()
    for s, v in res:
        c = Soft(c0, ip, s)
        M = s.norm(ip.proj(s, v, at))
        ct = strings_of(ip, p, s, args[0])
        if M.op == 'map' and M.a[0] == 'empty':
            q = s.copy()
            c.ob(not q.add_ge0(addc(ip.length(ct), -1)), 'every string is looked at', w, 'no attributes whatever the strings')
            continue
        if M.op != 'phi':
            c.ob(None, 'how attributes are collected', w, show(M)[:80])
            continue
        loops = map_loops(ip, s, M)
        # where the loops stand
        pos = positions(ip, [e for e, recs, init in loops], ct)
        idx, n = pos[0], ip.length(ct)
        q = s.copy()
        c.ob(True if s.entails_eq(idx, n) else False if q.add_ge0(addc(sub(n, idx), -1)) else None, 'every string is looked at', w, 'stops before string %s of %s' % (show(idx), show(n)))
        for i, (e, recs, init) in enumerate(loops):
            if e in done:
                continue
            done.add(e)
            last_ = i == len(loops) - 1
            for s0, m0 in init:
                if last_:
                    Soft(c0, ip, s0).ob(m0.op == 'map' and m0.a[0] == 'empty', 'only the strings give attributes', w, 'starts with %s' % show(m0)[:60])
                at0 = place(ip, e, s0, pos[i])
                Soft(c0, ip, s0).ob(s0.entails_eq(at0, I(0) if last_ else pos[i + 1]), 'every string is looked at', w, 'starts with string %s' % show(at0))
            for r, before, after in recs:
                # the string an iteration is about: where the last loop within it stopped, if there is one
                inner = [j for j in range(i) if loops[j][0] in chain(r.back.ev)]
                here = pos[inner[0] if inner else i]
                c = Soft(c0, ip, r.back)
                nx = walk(ip, r.back, r.back.mem[place_of(e, ip, pos[i])[0]], place_of(e, ip, pos[i])[1])
                q = r.back.copy()
                c.ob(True if r.back.entails_eq(nx, addc(here, 1)) else None if q.add_eq0(sub(nx, addc(here, 1))) else False, 'strings are looked at one after the other', w, 'goes on with %s' % show(nx)[:40])
                step(c, ip, r.back, ct, here, before, after, w, folds)
    c0.ob(bool(done), 'attributes are collected', w, 'no loop over the strings')
    c0.ob(True if len(folds) == 1 else False if folds else None, 'one folding of case is used', w, str(sorted(folds)))


def positions(ip, es, ct):
    """the φ by which each loop numbers the strings, innermost first"""
    out = []
    for i, e in enumerate(es):
        if out:
            # the loop around another: where that one starts
            at = {place(ip, es[i - 1], s0, out[-1]) for s0 in ip.loop_init.get(es[i - 1], [])}
            x = [t for t in at if t.op == 'phi' and place_of(e, ip, t)]
        else:
            cand = {t.a[1] for r in ip.loops[e] for t in state_terms(r.back) | dep_terms(r.back) if t.op == 'elem' and t.a[0] is ct and t.a[1].op == 'phi'}
            x = [t for t in cand if place_of(e, ip, t)]
        out.append(one(x, 'which string an iteration is about'))
    return out


def place_of(e, ip, idx):
    for r in ip.loops[e]:
        for k, v in r.head.mem.items():
            path = find_path(v, idx)
            if path is not None:
                return k, path


def place(ip, e, s0, idx):
    """what the position is in a state at the loop's entry"""
    k, path = place_of(e, ip, idx)
    if k not in s0.mem:
        raise Unknown('where the loop starts')
    return walk(ip, s0, s0.mem[k], path)


def step(c, ip, s, ct, idx, before, after, w, folds):
    """one iteration, about the string at idx"""
    E = bytes_of(ip, s, ip.elem(s, ct, idx))
    fe = first_eq(ip, s, E)
    n = ip.length(E)
    vague = any(t.op in ('contains', 'eqic', 'peq', 'startswith') for t in dep_terms(s))
    if after is before:
        rule = 'an attribute is only left out for its key'
        if fe[0] == 'unknown':
            c.ob(None if fe[1] or vague else False, rule, w, 'a string is passed over whatever it holds')
            return
        kl = fe[1] if fe[0] == 'at' else n
        q = s.copy()
        if not q.add_ge0(addc(kl, -1)):
            c.ob(True, rule, w)
            return
        key = ip.subseq(q, E, I(0), kl)
        u8 = known(ip, q, 'isutf8', key, lambda k: same_content(ip, q, unfold(k.a[0]), key))
        there = known(ip, q, 'inmap', key, lambda k: k.a[0] is before and folded(k.a[1]) is not None and same_content(ip, q, folded(k.a[1]), key))
        c.ob(True if u8 == 0 or there == 1 else None if vague else False, rule, w,
             'a string with a key that is text is passed over%s' % (', though the key may be new' if there is None else ''))
        return
    if not (after.op == 'map' and after.a[0] == 'ins' and after.a[1] is before):
        c.ob(None, 'a string gives one attribute', w, show(after)[:80])
        return
    K, V = after.a[2], after.a[3]
    there = known(ip, s, 'inmap', K, lambda k: k.a[0] is before and k.a[1] is K)
    c.ob(True if there == 0 else False, 'the first of two equal keys wins', w, 'an attribute replaces an earlier one')
    if fe[0] == 'unknown':
        c.ob(None, "a string is split at its first '='", w, show(K)[:80])
        return
    kl = fe[1] if fe[0] == 'at' else n
    q = s.copy()
    c.ob(not q.add_eq0(kl), 'an empty key is ignored', w, 'an attribute without a key')
    key = ip.subseq(s, E, I(0), kl)
    x = folded(K)
    if x is None:
        k = content(K)
        c.ob(False if k.op == 'strfn' or same_content(ip, s, k, key) else None, 'keys are folded in ASCII case', w, 'keyed by %s' % show(K)[:80])
    else:
        folds.add(folding(K))
        c.ob(True if same_content(ip, s, x, key) else None if tainted_text(x, E) else False, "the key ends at the first '='", w, 'key %s' % show(x)[:100])
    u8 = known(ip, s, 'isutf8', key, lambda k: same_content(ip, s, unfold(k.a[0]), key))
    c.ob(True if u8 == 1 else None if vague else False, 'a key that is not text is ignored', w, 'any bytes are taken as a key')
    kk = attr_key(ip, s, V)
    if kk is not None:
        c.ob(True if same_content(ip, s, unfold(kk), key) or (x is not None and same_content(ip, s, kk, content(K))) else None if tainted_text(kk, E) else False, "the key ends at the first '='", w, 'keeps %s as its key' % show(kk)[:80])
    a = attr(ip, s, V)
    if a is None:
        c.ob(None, 'the value of an attribute', w, show(V)[:80])
    elif fe[0] == 'no':
        c.ob(a[0] == 'none', "a string without '=' is a flag", w, 'has a value')
    elif a[0] == 'none':
        c.ob(False, "what follows the '=' is the value", w, 'has no value')
    else:
        want = ip.subseq(s, E, addc(kl, 1), addc(sub(n, kl), -1))
        c.ob(True if same_content(ip, s, a[1], want) else None if tainted_text(a[1], E) else False, "what follows the '=' is the value", w, 'value %s' % show(a[1])[:100])


def tainted_text(x, E):
    """a text that is not made of parts of E, or an edit of them, in a way that can be followed"""
    return any(t.op in ('ret', 'phi', 'collected', 'edited', 'havoc') for t in subterms(x) - subterms(E))


def self_map(ip, p, args):
    return ip.load(State(), ('S', args[0]), (map_at(p),))


def folds_of(c0, p):
    """the foldings from_txt, get and add_flag use must be one"""


def c24_get(c0, p):
    ip = svc_interp(c0, p)
    b = fn(p, TXTS + '::get')
    args, res = run_any(ip, b)
    c0.account(ip)
    w = loc(b)
    M = self_map(ip, p, args)
    vty = tyid(p, TXTV)
    for kd, stack, span, s in ip.panics:
        Soft(c0, ip, s).ob(False, 'no lookup panics', w, '%s at %s' % (kd, span))
    rule = 'an attribute is found under any casing'
    for s, v in res:
        c = Soft(c0, ip, s)
        kct, off, n = ip.slice_content(s, args[1])
        key = ip.subseq(s, kct, off, n)
        keys = [(k, x) for k, x in s.eqc.items() if isinstance(k, T) and k.op == 'inmap' and k.a[0] is M]
        good = [(k, x) for k, x in keys if folded(k.a[1]) is not None and same_content(ip, s, folded(k.a[1]), key)]
        if not good:
            bad = [k for k, x in keys if same_content(ip, s, content(k.a[1]), key) or content(k.a[1]).op == 'strfn']
            c.ob(False if bad or not keys and is_none(v) else None, rule, w, 'looks for %s' % [show(k.a[1])[:50] for k, x in keys])
            continue
        k, there = good[0]
        c0_fold(c0, 'get', folding(k.a[1]), w)
        if is_none(v):
            c.ob(there == 0, rule, w, 'not found though it is there')
            continue
        if v.op != 'agg' or v.a[1] != 1:
            c.ob(None, rule, w, show(v)[:60])
            continue
        c.ob(there == 1, rule, w, 'found though it is not there')
        rec = mk('mapget', M, k.a[1])
        value_is(c, ip, s, p, v.a[2][0], rec, rule, w)
    c0.ob(bool(res), rule, w, 'never returns')


def is_none(v):
    return v.op == 'agg' and v.a[1] == 0


def value_is(c, ip, s, p, v, rec, rule, w):
    """a TxtRecordValue stands for the value of an attribute"""
    vty = tyid(p, TXTV)
    a = attr(ip, s, rec)
    if a is None or v.op != 'agg':
        c.ob(None, rule, w, show(v)[:60])
        return
    name = p.types[vty]['v'][v.a[1]]['n']
    if a[0] == 'none':
        c.ob(name == 'NoValue', 'flags have no value', w, 'a flag is shown as %s' % name)
    elif name != 'Value':
        c.ob(False, 'a value is shown as it is', w, 'shown as %s' % name)
    else:
        ct, off, n = ip.slice_content(s, v.a[2][0])
        x = ip.subseq(s, ct, off, n)
        c.ob(True if same_content(ip, s, x, a[1]) else None if tainted_text(x, a[1]) else False, 'a value is shown as it is', w, 'shown as %s' % show(x)[:60])


_fold = {}


def c0_fold(c0, who, f, w):
    """every function folds alike"""
    d = _fold.setdefault(id(c0), {})
    d[who] = f
    c0.ob(len(set(d.values())) == 1, 'lookups and insertions fold case alike', w, str(d))


def c24_add_flag(c0, p):
    ip = svc_interp(c0, p)
    b = fn(p, TXTS + '::add_flag')
    args, res = run_any(ip, b)
    c0.account(ip)
    w = loc(b)
    M = self_map(ip, p, args)
    rule = 'a flag that is added is there, without a value'
    for kd, stack, span, s in ip.panics:
        Soft(c0, ip, s).ob(False, 'no insertion panics', w, '%s at %s' % (kd, span))
    for s, v in res:
        c = Soft(c0, ip, s)
        key = content(ip.proj(s, args[1], ('v',))) if p.types[b['locals'][2]].get('path') == 'std::string::String' else ip.subseq(s, *ip.slice_content(s, args[1]))
        N = s.norm(ip.load(s, ('S', args[0]), (map_at(p),)))
        if N is M:
            there = [k for k, x in s.eqc.items() if isinstance(k, T) and x == 1 and k.op == 'inmap' and k.a[0] is M and folded(k.a[1]) is not None and same_content(ip, s, folded(k.a[1]), key)]
            a = attr(ip, s, mk('mapget', M, there[0].a[1])) if there and there[0].a[1].ty is not None and mk('mapget', M, there[0].a[1]).ty is not None else None
            c.ob(a is not None and a[0] == 'none', rule, w, 'what was there under the key stays' if there else 'nothing is added')
            continue
        if not (N.op == 'map' and N.a[0] == 'ins' and N.a[1] is M):
            c.ob(None, rule, w, show(N)[:80])
            continue
        K, V = N.a[2], N.a[3]
        x = folded(K)
        c.ob(True if x is not None and same_content(ip, s, x, key) else None if tainted_text(content(K), key) else False, rule, w, 'kept under %s' % show(K)[:60])
        if x is not None:
            c0_fold(c0, 'add_flag', folding(K), w)
        kk = attr_key(ip, s, V)
        if kk is not None:
            c.ob(True if same_content(ip, s, kk, key) or same_content(ip, s, kk, content(K)) else None if tainted_text(kk, key) else False, rule, w, 'keeps %s as its key' % show(kk)[:60])
        a = attr(ip, s, V)
        c.ob(None if a is None else a[0] == 'none', rule, w, 'added with a value')
    c0.ob(bool(res), rule, w, 'never returns')


class At:
    def __init__(self):
        self.uid = mk('sym', uniq('observer'))


def next_of(ip, s, root, ty):
    """advance an iterator: [(state, item or None)]"""
    fr = At()
    cc = CallCtx(ip, {'path': 'next', 'name': 'next', 'i': None, 'args': []}, [], [], None, (fr, uniq('next'), None), None)
    return models.iter_next(cc, s, root, (), ty)


def c24_iter(c0, p):
    ip = svc_interp(c0, p)
    b = fn(p, TXTS + '::iter')
    args, res = run_any(ip, b)
    c0.account(ip)
    w = loc(b)
    M = self_map(ip, p, args)
    n = mk('maplen', M, rng=(0, models.ISIZE))
    rule = 'every attribute is listed once'
    for s, v in res:
        root, ref = on_value(ip, s, v, 'iter')
        work = [s]
        for k in range(3):
            nxt = []
            for q in work:
                for q2, x in next_of(ip, q.copy(), root, v.ty):
                    c = Soft(c0, ip, q2)
                    if x is None:
                        r = q2.copy()
                        c.ob(not r.add_ge0(addc(n, -k - 1)), rule, w, 'ends after %d attributes though there are more' % k)
                        continue
                    nxt.append(q2)
                    r = q2.copy()
                    c.ob(not r.add_ge0(sub(I(k), n)), rule, w, 'more attributes than there are')
                    rec = mk('mapval', M, I(k))
                    if x.op != 'agg' or len(x.a[2]) != 2:
                        c.ob(None, rule, w, show(x)[:80])
                        continue
                    kct, off, kn = ip.slice_content(q2, x.a[2][0])
                    key = ip.subseq(q2, kct, off, kn)
                    want = [y for y in (attr_key(ip, q2, rec), key_at(ip, q2, M, k)) if y is not None]
                    c.ob(True if any(same_content(ip, q2, key, y) for y in want) else None if not want or tainted_text(key, want[0]) else False, rule, w, 'lists %s' % show(key)[:80])
                    value_is(c, ip, q2, p, x.a[2][1], rec, rule, w)
            work = nxt
        c0.ob(bool(work), rule, w, 'lists no third attribute')
    c0.ob(bool(res), rule, w, 'never returns')


def key_at(ip, s, M, k):
    kr = mk('mapkey', M, I(k))
    if kr.ty is None:
        return None
    return content(ip.proj(s, kr, ('v',)))


def c24_is_empty(c0, p):
    ip = svc_interp(c0, p)
    b = fn(p, TXTS + '::is_empty')
    args, res = run_any(ip, b)
    c0.account(ip)
    n = mk('maplen', self_map(ip, p, args), rng=(0, models.ISIZE))
    for s, v in res:
        c = Soft(c0, ip, s)
        for t in (True, False):
            q = s.copy()
            if v.op == 'int':
                if bool(v.a[0]) != t:
                    continue
            elif not q.assume(v, t):
                continue
            r = q.copy()
            c.ob(not (r.add_ge0(addc(n, -1)) if t else r.add_eq0(n)), 'empty means without attributes', loc(b), 'says %s' % t)


def c24_new(c0, p):
    ip = svc_interp(c0, p)
    b = fn(p, TXTS + '::new')
    args, res = run_any(ip, b)
    c0.account(ip)
    for s, v in res:
        M = ip.proj(s, v, map_at(p))
        Soft(c0, ip, s).ob(True if M.op == 'map' and M.a[0] == 'empty' else False if M.op == 'map' else None, 'new attributes are empty', loc(b), show(M)[:60])


# ---- C17 ----------------------------------------------------------------------------------------
ADVN = SVC + 'advertising::'
RECD = 'uwuhi::packet::records::'
ENUM = [b'_services', b'_dns-sd', b'_udp', b'local']
AIDX = 'uwuhi_async::service::advertising::AsyncAdvertiser'


def c17(c):
    """Registration is run on an arbitrary advertiser with arbitrary arguments. In every outcome the list of registered records must be the old list with entries
    added, among which every record of the set is found: owner name and target label by label, port, address byte by byte, and the TXT strings through the loop over
    the attributes, per iteration, from the first attribute to the last."""
    p = c.prog()
    for k, p_, ty in (('uwuhi', p, ADVN + 'Advertiser'), ('uwuhi', p, ADVN + 'SyncAdvertiser'), ('uwuhi_async', None, AIDX)):
        for f in ('new', 'add_name', 'add_instance'):
            c.group('%s::%s' % (ty, f), c17_one, c, k, ty, f)


def place_in(ip, s, root, want, ty, d=5, path=()):
    """paths to the parts of a value whose type satisfies want"""
    p = ip.p
    t = p.types[ty]
    if want(t):
        yield path
    elif t['k'] == 'struct' and d and t.get('path', '').startswith('uwuhi'):
        for i, f in enumerate(p.fields(ty)):
            yield from place_in(ip, s, root, want, f, d - 1, path + (('f', None, i, f),))


def holds(p, ty, path, d=3):
    t = p.types[ty]
    if t.get('path') == path:
        return True
    return bool(t['k'] == 'struct' and d and t.get('path', '').startswith('uwuhi') and any(holds(p, f, path, d - 1) for f in p.fields(ty)))


class Reg:
    """the outcomes of a registering function"""
    def __init__(self, c0, crate, ty, f):
        p = self.p = c0.prog(crate)
        ip = self.ip = svc_interp(c0, p, split_eq=1, unroll=6)
        discovery.parse_summary(ip, p)
        b = self.b = fn(p, ty + '::' + f)
        self.args, self.res = run_any(ip, b)
        c0.account(ip)
        self.where = loc(b)
        self.f = f
        self.ty = tyid(p, ty)
        is_db = lambda t: t.get('path') == 'std::vec::Vec' and t.get('args') and holds(p, t['args'][0], DNM) and holds(p, t['args'][0], RECD + 'Record')
        self.db = one(list(place_in(ip, None, None, is_db, self.ty)), 'where registered records are kept')
        t = p.types[self.db[-1][3]]
        self.ety = t['args'][0]
        self.dn = list(place_in(ip, None, None, lambda t: t.get('path') == DNM, self.ty))
        self.nty = tyid(p, DNM)

    def at(self, s, v, path):
        for e in path:
            v = self.ip.proj(s, v, e)
        return v

    def name(self, s, v):
        """the content of the list of labels of a name"""
        ip, p = self.ip, self.p
        for _ in range(3):
            if v.op == 'ref':
                v = ip.load(s, v.a[0], v.a[1])
            elif v.ty is not None and p.types[v.ty].get('path') == 'std::borrow::Cow':
                d = s.norm(ip.discr(s, v, v.ty))
                if d.op != 'int':
                    raise Unknown('whether a name is borrowed')
                v = ip.proj(s, v, ('f', d.a[0], 0, p.fields(v.ty, d.a[0])[0]))
        i, f = one([(i, f) for i, f in enumerate(p.fields(self.nty)) if p.types[f].get('path') == 'std::vec::Vec'], 'the labels of a name')
        return ip.proj(s, ip.proj(s, v, ('f', None, i, f)), ('v',))

    def name_is(self, s, ct, want):
        """a name consists of the labels wanted (each a content or bytes): True | False | None"""
        ip = self.ip
        ps = parts_of(ip, s, s.norm(ct))
        if any(x[0] != 'one' for x in ps):
            return None
        if len(ps) != len(want):
            return False
        ok = True
        for x, w in zip(ps, want):
            g = label_bytes(ip, s, x[1])
            if isinstance(w, bytes):
                r = text_is(ip, s, g, I(0), ip.length(g), w)
            else:
                r = True if same_content(ip, s, g, w) else None if any(t.op in ('ret', 'havoc', 'phi', 'edited') for t in subterms(g)) else False
            if r is False:
                return False
            ok = ok and r
        return ok

    def is_enum(self, s, v, s0v):
        """a name is the enumeration name: built here, or kept since the advertiser was made (where that is checked)"""
        ct = self.name(s, v)
        if s0v is not None:
            for path in self.dn:
                if same_content(self.ip, s, ct, self.name(s, self.at(s, s0v, path))):
                    return True
        return self.literal(s, v, ENUM)

    def literal(self, s, v, want):
        ct = s.norm(self.name(s, v))
        for e in chain(s.ev):
            if kind(e) == 'parse' and e.a[1][1] == 'str' and e.a[1][3] is not None and same_content(self.ip, s, ct, self.name(s, e.a[1][3])):
                txt = s.norm(e.a[1][2])
                n = self.ip.length(txt)
                if n.op != 'int':
                    return None
                bs = [self.ip.elem(s, txt, I(i)) for i in range(n.a[0])]
                if any(x.op != 'int' for x in bs):
                    return None
                t = bytes(x.a[0] for x in bs)
                return t in (b'.'.join(want), b'.'.join(want) + b'.')
        return self.name_is(s, ct, want)

    def get(self, s, v, path, item):
        """what an accessor shows"""
        s2 = s.copy()
        root, ref = on_value(self.ip, s2, v, 'shown')
        s2, r = observe(self.ip, s2, fn(self.p, path + '::' + item), [ref], item)
        if r.op == 'ref':
            r = self.ip.load(s2, r.a[0], r.a[1])
        return r

    def entry(self, s, e):
        """(name, class, record) of a registered record"""
        p, ip = self.p, self.ip
        from services import pick1
        nm = pick1(ip, s, e, lambda t: t.get('path') == DNM, 'the name', self.ety)[1]
        rec = pick1(ip, s, e, lambda t: t.get('path') == RECD + 'Record', 'the data', self.ety)[1]
        cls = pick1(ip, s, e, lambda t: t.get('path') == 'uwuhi::packet::Class', 'the class', self.ety)[1]
        return nm, cls, rec


def vague_state(ip, s, before):
    """the outcome rests on what was registered before"""
    n = ip.length(before) if before is not None else None
    for k in s.eqc:
        if isinstance(k, T) and k.op in ('has', 'firstpos', 'lastpos', 'nameeq', 'contains', 'ret', 'peq') or isinstance(k, T) and before is not None and before in subterms(k):
            return True
    for f_ in s.facts:
        if not State().entails(mklin(f_[0], dict(f_[1]))) and any(before is not None and before in subterms(a) and a is not n for a, _ in f_[1]):
            return True
    # or on what a loop over it found
    return before is not None and any(e.op == 'loop' and any(t.op == 'elem' and t.a[0] is before for r in ip.loops.get(e) or [] for t in dep_terms(r.back)) for e in chain(s.ev))


def lost(ip, s, R, parts, before):
    """are records registered before dropped? False (no) is never said here: True | None"""
    spans = [x for x in parts if x[0] == 'span' and x[1] is before]
    others = [x for x in parts if x not in spans]
    if not any(before in subterms(y) for x in others for y in x[1:] if isinstance(y, T)):
        n = I(0)
        for x in spans:
            n = add(n, x[3])
        q = s.copy()
        return True if q.add_ge0(addc(sub(ip.length(before), n), -1)) else None
    for x in others:
        if x[0] == 'span' and x[1] in ip.retained and x[1].a[1] is before:
            y, s0, outs = ip.retained[x[1]]
            from services import pick1
            rec = pick1(ip, s0, y, lambda t: t.get('path') == RECD + 'Record', 'the data', R.ety)[1]
            for q, r in outs:
                for z in ([q] if r.op == 'int' and r.a[0] == 0 else []) if r.op == 'int' else [q]:
                    if r.op != 'int' and not z.assume(r, False):
                        continue
                    if tainted(ip, z) or any(rec in subterms(k) for k in z.eqc if isinstance(k, T)) or any(rec in subterms(a) for f_ in z.facts for a, _ in f_[1]):
                        continue
                    return True
    return None


def c17_one(c0, crate, ty, f):
    R = Reg(c0, crate, ty, f)
    ip, p, w = R.ip, R.p, R.where
    for kd, stack, span, s in ip.panics:
        if not any(kind(e) == 'parse' for e in chain(s.ev)):
            Soft(c0, ip, s).ob(None if any(e.op == 'loop' for e in chain(s.ev)) else False, 'registering does not panic', w, '%s at %s' % (kd, span))
    n = 0
    for s, v in R.res:
        c = Soft(c0, ip, s)
        old = None
        if f == 'new':
            if is_err(v):
                continue
            if v.ty is not None and p.types[v.ty].get('path') == 'std::result::Result':
                if not is_ok(v):
                    c.ob(None, 'the outcome', w, show(v)[:60])
                    continue
                v = v.a[2][0]
            me, before = v, mk('seq', ())
            for path in R.dn:
                c.ob(R.literal(s, R.at(s, me, path), ENUM), 'the enumeration name is _services._dns-sd._udp.local', w, show(R.at(s, me, path))[:100])
        else:
            me = ip.load(s, ('S', R.args[0]), ())
            old = ip.load(State(), ('S', R.args[0]), ())
            before = R.at(s, old, R.db + (('v',),))
            for path in R.dn:
                c.ob(True if R.at(s, me, path) is R.at(s, old, path) else None, 'the enumeration name stays', w)
        n += 1
        now = R.at(s, me, R.db + (('v',),))
        parts = sequence(ip, s, s.norm(now))
        rest = [x for x in parts if not (x[0] == 'span' and f != 'new' and x[1] is before and x[2] is I(0) and s.entails_eq(x[3], ip.length(before)))]
        if f != 'new':
            c.ob(True if len(rest) < len(parts) else False if lost(ip, s, R, parts, before) else None, 'records registered before are kept', w, 'the list becomes %s' % show(now)[:80])
        if any(x[0] != 'one' for x in rest):
            c.ob(None, 'which records are registered', w, show(now)[:100])
            continue
        added = [R.entry(s, x[1]) for x in rest]
        if f == 'add_instance':
            for q in transports(R, s):
                verdict(Soft(c0, ip, q), R, q, added, instance(R, q, old), before, True)
        else:
            verdict(c, R, s, added, hosts(R, s), before, False)
    c0.ob(bool(n), 'registration succeeds', w, 'never')


def transports(R, s):
    """the state, for each transport the instance may have"""
    labs, tr = identity(R.ip, R.p, s, R.args[-2], INSTANCE)
    d = R.ip.discr(s, tr, tr.ty)
    out = []
    for var in TR.values():
        q = s.copy()
        if q.add_eq0(addc(d, -variant(R.p, tr.ty, var))):
            out.append(q)
    return out


def verdict(c, R, s, added, want, before, inst):
    for rule, owner, check in want:
        verdicts = []
        for nm, cls, rec in added:
            a = owner(nm)
            b_ = check(c, rec) if a is not False else False
            cl = cls.a[2][0] if cls.op == 'agg' and len(cls.a[2]) == 1 else None
            k = None if cl is None else True if s.entails_eq(cl, I(1)) else False
            verdicts.append(False if False in (a, b_, k) else None if None in (a, b_, k) else True)
        ok = True if True in verdicts else None if None in verdicts or vague_state(R.ip, s, before) else False
        c.ob(ok, rule, R.where, 'not among the %d records registered' % len(added))
    if inst:
        own = want[0][1]
        txts = [nm for nm, cls, rec in added if rec.op == 'agg' and discovery.variant(R.p, rec) == 'TXT' and own(nm) is True]
        c.ob(len(txts) <= 1, 'there is exactly one TXT record', R.where, '%d are registered' % len(txts))


def hosts(R, s):
    ip, p = R.ip, R.p
    k = len(R.args) - 2
    hct = label_ct(ip, s, R.args[k])
    a = R.args[k + 1]
    d = s.norm(ip.discr(s, a, a.ty))
    owner = lambda nm: R.name_is(s, R.name(s, nm), [hct, b'local'])

    def check(c, rec):
        if rec.op != 'agg' or d.op != 'int':
            return None
        var = ('A', 'AAAA')[d.a[0]]
        if discovery.variant(p, rec) != var:
            return False
        m = 4 if var == 'A' else 16
        got = discovery.octets(ip, s, R.get(s, rec.a[2][0], RECD + var, 'addr'), m)
        exp = discovery.octets(ip, s, ip.proj(s, a, ('f', d.a[0], 0, p.fields(a.ty, d.a[0])[0])), m)
        if got is None or exp is None:
            return None
        if all(s.entails_eq(x, y) for x, y in zip(got, exp)):
            return True
        return None if any(t.op in ('ret', 'havoc') for x in got for t in subterms(x)) else False
    return [('a host name gets an address record of its family', owner, check)]


def instance(R, s, old):
    ip, p = R.ip, R.p
    inst, det = R.args[-2], R.args[-1]
    labs, tr = identity(ip, p, s, inst, INSTANCE)
    d = s.norm(ip.discr(s, tr, tr.ty))
    tl = None
    for txt, var in TR.items():
        if s.entails_eq(d, I(variant(p, tr.ty, var))):
            tl = txt.encode()
    if tl is None:
        raise Unknown('the transport')
    full = [labs[0], labs[1], tl, b'local']
    named = lambda want: (lambda nm: R.name_is(s, R.name(s, nm), want))
    D = SVC + 'InstanceDetails'

    def of(var, check):
        def g(c, rec):
            if rec.op != 'agg':
                return None
            return check(rec.a[2][0]) if discovery.variant(p, rec) == var else False
        return g

    def srv(x):
        port = s.entails_eq(R.get(s, x, RECD + 'SRV', 'port'), R.get(s, det, D, 'port'))
        got, want = R.name(s, R.get(s, x, RECD + 'SRV', 'target')), R.name(s, R.get(s, det, D, 'host'))
        if port and same_content(ip, s, got, want):
            return True
        return None if any(t.op in ('ret', 'havoc') for t in subterms(got)) else False

    def ptr(want):
        return lambda x: R.name_is(s, R.name(s, R.get(s, x, RECD + 'PTR', 'ptrdname')), want)
    return [('an SRV record has the host and port', named(full), of('SRV', srv)),
            ('a TXT record has all attributes', named(full), of('TXT', lambda x: txt_is(R, s, x, det))),
            ('the service name points to the instance', named(full[1:]), of('PTR', ptr(full))),
            ('the enumeration name points to the service', lambda nm: R.is_enum(s, nm, old), of('PTR', ptr(full[1:])))]


def through(ip, s, parts):
    """strings that are those of another list, one by one: that list's"""
    for _ in range(3):
        if len(parts) != 1 or parts[0][0] != 'each' or len(parts[0][1].recs) != 1 or parts[0][1].recs[0][1] is None:
            return parts
        E = parts[0][1]
        r, v = E.recs[0]
        b = r.back
        got = bytes_of(ip, b, v)
        X = [t for t in subterms(got) if t.op == 'elem' and t.a[1].op == 'phi' and place_of(E.marker, ip, t.a[1])
             and same_content(ip, b, got, bytes_of(ip, b, t) if t.ty is not None else got)]
        if len(X) != 1:
            return parts
        ct, idx = X[0].a
        k, path = place_of(E.marker, ip, idx)
        if not (b.entails_eq(walk(ip, b, b.mem[k], path), addc(idx, 1)) and s.entails_eq(idx, ip.length(ct)) and
                all(s0.entails_eq(place(ip, E.marker, s0, idx), I(0)) for s0 in ip.loop_init.get(E.marker, []))):
            return parts
        parts = sequence(ip, s, s.norm(ct))
    return parts


def txt_is(R, s, x, det):
    """the strings of TXT data stand for all attributes, in any order: True | False | None"""
    ip, p = R.ip, R.p
    tx = R.get(s, det, SVC + 'InstanceDetails', 'txt_records')
    M = s.norm(ip.proj(s, tx, map_at(p)))
    n = mk('maplen', M, rng=(0, models.ISIZE))
    ty = tyid(p, TXT_)
    i, f = one([(i, f) for i, f in enumerate(p.fields(ty)) if p.types[f].get('path') == 'std::vec::Vec'], 'the strings of TXT data')
    ct = ip.proj(s, ip.proj(s, x, ('f', None, i, f)), ('v',))
    parts = sequence(ip, s, s.norm(ct))
    if all(q[0] == 'one' for q in parts):
        if s.entails_eq(n, I(0)):
            return len(parts) == 1 and s.entails_eq(ip.length(bytes_of(ip, s, parts[0][1])), I(0))
        q = s.copy()
        # a fixed number of strings for any number of attributes
        return False if q.add_ge0(addc(n, -len(parts) - 1)) and not vague_state(ip, s, None) else None
    parts = through(ip, s, parts)
    if len(parts) != 1 or parts[0][0] != 'each':
        return None
    E = parts[0][1]
    for r, v in E.recs:
        # a loop within that advances over attributes passes them over
        for e in r.evs:
            for r2 in (ip.loops.get(e) or []) if e.op == 'loop' else []:
                was = {t for x in r2.head.mem.values() for t in subterms(x) if t.op == 'iter' and t.a[0] == 'map' and t.a[1] is M}
                now = {t for x in r2.back.mem.values() for t in subterms(x) if t.op == 'iter' and t.a[0] == 'map' and t.a[1] is M}
                if now - was:
                    return None if tainted(ip, r2.back) or any(t.op in ('contains', 'eqic', 'peq', 'startswith') for t in dep_terms(r2.back)) else False
    # the strings are made by a loop over the attributes
    cand = {t.a[1] for r, v in E.recs for t in state_terms(r.back) | dep_terms(r.back) if t.op in ('mapval', 'mapkey') and t.a[0] is M and t.a[1].op == 'phi'}
    cand = [t for t in cand if place_of(E.marker, ip, t)] or [t.a[3] for r, v in E.recs for x in r.head.mem.values() for t in subterms(x) if t.op == 'iter' and t.a[0] == 'map' and t.a[1] is M and t.a[3].op == 'phi']
    if len(set(cand)) != 1:
        return None
    idx = cand[0]
    q = s.copy()
    if not s.entails_eq(idx, n):
        return False if q.add_ge0(addc(sub(n, idx), -1)) and not tainted(ip, s) else None
    for s0 in ip.loop_init.get(E.marker, []):
        at0 = place(ip, E.marker, s0, idx)
        if not s0.entails_eq(at0, I(0)):
            return False if at0.op == 'int' else None
    out = True
    for r, v in E.recs:
        b = r.back
        k, path = place_of(E.marker, ip, idx)
        nx = walk(ip, b, b.mem[k], path)
        if not b.entails_eq(nx, addc(idx, 1)):
            q = b.copy()
            return None if q.add_eq0(sub(nx, addc(idx, 1))) else False
        if v is None:
            if tainted(ip, b) or any(t.op in ('contains', 'eqic', 'peq', 'startswith') for t in dep_terms(b)):
                return None
            return False
        rec = mk('mapval', M, idx)
        key = attr_key(ip, b, rec)
        if key is None:
            key = content(ip.proj(b, mk('mapkey', M, idx), ('v',)))
        a = attr(ip, b, rec)
        if a is None:
            return None
        want = [('s', key, I(0), ip.length(key))]
        if a[0] == 'some':
            want += [('o', I(61)), ('s', a[1], I(0), ip.length(a[1]))]
        got = bytes_of(ip, b, v)
        if not same_content(ip, b, got, mk('seq', tuple(want))):
            if any(t.op in ('ret', 'havoc', 'edited', 'collected') for t in subterms(b.norm(got)) - subterms(key)):
                out = None
            else:
                return False
    return out



# ---- C28: what an SRV record says ----------------------------------------------------------------
def c28_srv(c0, p):
    ip = interp(c0, p)
    b = fn(p, DETAILS + '::from_srv')
    args, res = run_any(ip, b)
    c0.account(ip)
    w = loc(b)
    for kd, stack, span, s in ip.panics:
        Firm(c0, ip, s).ob(False, 'no SRV record makes it panic', w, '%s at %s' % (kd, span))
    good = 0
    for s, v in res:
        if is_err(v):
            continue
        c = Firm(c0, ip, s)
        good += 1
        det = v.a[2][0] if is_ok(v) else v
        root, ref = on_value(ip, s, det, 'details')
        s1, port = observe(ip, s, fn(p, DETAILS + '::port'), [ref], 'port')
        s1, want = observe(ip, s1, fn(p, SRV_ + '::port'), [args[0]], 'srv port')
        q = s1.copy()
        c.ob(True if s1.entails_eq(port, want) else False if q.assume(eq0(sub(port, want)), False) else None, 'the port of the record is the port of the details', w, 'port %s' % show(port)[:80])
        s1, host = observe(ip, s1, fn(p, DETAILS + '::host'), [ref], 'host')
        s1, tgt = observe(ip, s1, fn(p, SRV_ + '::target'), [args[0]], 'target')
        ls = []
        for x in (host, tgt):
            s1, l = observe(ip, s1, fn(p, DNM + '::labels'), [x], 'labels')
            ls.append(ip.slice_content(s1, l))
        (ct, off, n), (ct2, off2, n2) = ls
        same = s1.entails_eq(n, n2) and same_content(ip, s1, ip.subseq(s1, ct, off, n), ip.subseq(s1, ct2, off2, n2))
        c.ob(True if same else False, 'the target of the record is the host of the details', w, 'host %s' % show(ct)[:80])
    c0.ob(good > 0, 'an SRV record gives details', w, 'no outcome with details')


def c28(c):
    """from_srv must give the record's own target and port for every record. Every successful outcome's host and port must be those of one value parsed from an SRV
    record of a response, its attributes those parsed from a TXT record, or none; the outcomes at the deadline must be timeout errors."""
    p = c.prog()
    c.group(DETAILS + '::from_srv', c28_srv, c, p)
    discovery.c28(c)


PROPS = {'C28': c28, 'C17': c17, 'C23': c23, 'C24': c24}
