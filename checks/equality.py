"""C39: equality, ordering and clones agree with what values contain"""
from base import *
from util import *
import models, names, printed
from models import from_bytes
from absenc import run_any, chain
from decoding import uniq, on_value
from names import DN, LB, tyid

EQ = 'values are equal exactly when all their parts are'
ORD = 'values are ordered the same only when they are equal, and the other way round when swapped'
CLN = 'a clone has the contents of the original'


def bodies(p, item):
    """the functions of that name of the traits of comparison, with the type they belong to"""
    tr = {'eq': 'PartialEq', 'ne': 'PartialEq', 'cmp': 'Ord', 'partial_cmp': 'PartialOrd', 'clone': 'Clone'}[item]
    for b in p.d['bodies']:
        if b.get('body') and b.get('item') == item and '{closure' not in b['path'] and re.match(r'<%s::.* as std::(cmp|clone)::%s(<.*>)?>::' % (p.d['crate'], tr), b['path']):
            ts = [p.types[t]['e'] for t in b['locals'][1:b['argc'] + 1] if p.tk(t) == 'ref']
            if len(ts) == b['argc'] and (len(ts) == 1 or ts[0] == ts[1] or p.types[ts[0]].get('path') == p.types[ts[1]].get('path')):
                yield b, ts[0]


def parts(ip, s, x, ty, d=6):
    """what a value consists of: [(kind, term, ...)]; None if it cannot be said"""
    p = ip.p
    t = p.types[ty]
    x = s.norm(x)
    if p.irange(ty) or p.tk(ty) in ('bool', 'char'):
        return [('int', x)]
    path = t.get('path')
    if path == 'std::marker::PhantomData':
        return []
    if path in ('std::vec::Vec', 'std::boxed::Box', 'std::string::String') and (path != 'std::boxed::Box' or p.tk(t['args'][0]) in ('slice', 'str')):
        try:
            return [('content', ip.proj(s, x, ('v',)))]
        except Exception:
            return None
    if path == 'std::borrow::Cow':
        try:
            k = s.norm(ip.discr(s, x, ty))
        except Exception:
            return None
        inner = t['v'][1]['f'][0]['t']
        for i in (0, 1):
            if s.entails_eq(k, I(i)):
                f = ip.proj(s, x, ('f', i, 0, t['v'][i]['f'][0]['t']))
                return parts(ip, s, models.deref_load(printed.CtxOf(ip), s, f, inner) if i == 0 else f, inner, d - 1)
        return None
    if p.tk(ty) == 'array':
        return [('array', x)]
    if p.tk(ty) == 'ref' and d:
        if p.tk(t['e']) in ('slice', 'str'):
            try:
                return [('content', ip.subseq(s, *ip.slice_content(s, x)))]
            except Exception:
                return None
        return parts(ip, s, models.deref_load(printed.CtxOf(ip), s, x, t['e']), t['e'], d - 1)
    if p.tk(ty) == 'enum' and t['v'] and not any(v['f'] for v in t['v']):
        return [('int', s.norm(ip.discr(s, x, ty)))]
    if p.tk(ty) in ('struct', 'tuple') and d:
        out = []
        for i, f in enumerate(p.fields(ty)):
            q = parts(ip, s, ip.proj(s, x, ('f', None, i, f)), f, d - 1)
            if q is None:
                return None
            out += q
        return out
    return None


def conds(ip, s, x, y, ty):
    """conditions under which two values are the same, part by part"""
    a, b = parts(ip, s, x, ty), parts(ip, s, y, ty)
    if a is None or b is None or len(a) != len(b):
        return None
    out = []
    for q, r in zip(a, b):
        if q[1] is r[1]:
            continue
        out.append((q[0], q[1], r[1], eq0(sub(q[1], r[1])) if q[0] == 'int' else models.content_eq(ip, s, q[1], r[1])))
    return out


def same_in(ip, s, q):
    """are the two parts the same in this state? False only if they may differ whatever else the state says"""
    kind, x, y, cond = q
    if s.truth(cond) is True:
        return True
    if kind == 'int':
        s2 = s.copy()
        return False if s2.assume(cond, False) else None
    if kind == 'array':
        n = s.norm(ip.length(x))
        if n.op == 'int' and 0 < n.a[0] <= 64 and n is s.norm(ip.length(y)):
            ws = [ip.elem(s, x, I(i)) for i in range(n.a[0])], [ip.elem(s, y, I(i)) for i in range(n.a[0])]
            if all(s.entails_eq(u, v) for u, v in zip(*ws)):
                return True
            if any(len(ws[0]) % k == 0 and all(s.entails_eq(from_bytes(ws[0][i:i + k]), from_bytes(ws[1][i:i + k])) for i in range(0, len(ws[0]), k)) for k in (2, 4, 8, 16)):
                return True
    # a part the state does not depend on
    return False if x not in dep_terms(s) and y not in dep_terms(s) else None


def interp(c, p, **o):
    return c.interp(p, exact=1, maxstates=400, **o)


def two(ip, p, b, st, same=False):
    use(p)
    args = [ip.fresh_sym('q%d#%d' % (i, ip.serial), b['locals'][i + 1]) for i in range(b['argc'])]
    if same:
        args[1] = args[0]
    return args


def load(ip, s, r, ty):
    return models.deref_load(printed.CtxOf(ip), s, r, ty)


def verdict(sc, ip, s, cs, v, rule, where, what):
    if cs is None:
        sc.ob(None, rule, where, 'the parts are not known')
        return
    ks = [(same_in(ip, s, q), q) for q in cs]
    bad = [q for k, q in ks if k is False]
    if bad and not loose(s, v):
        sc.ob(False, rule, where, '%s: %s and %s' % (what, show(bad[0][1])[:60], show(bad[0][2])[:60]))
    else:
        rest = [q for k, q in ks if k is not True]
        sc.ob(True if not rest else None, rule, where, '%d parts the same' % len(ks) if not rest else show(rest[0][3])[:80])


def cows(ip, s, x, ty, d=6):
    """borrowed-or-owned values in it of which it is not known which they are"""
    p = ip.p
    t = p.types[ty]
    x = s.norm(x)
    if t.get('path') == 'std::borrow::Cow':
        try:
            k = s.norm(ip.discr(s, x, ty))
        except Exception:
            return
        if k.op != 'int' and not any(s.entails_eq(k, I(i)) for i in (0, 1)):
            yield k
    elif p.tk(ty) in ('struct', 'tuple') and d and t.get('path', '').split('::')[0] not in ('std', 'core', 'alloc'):
        for i, f in enumerate(p.fields(ty)):
            yield from cows(ip, s, ip.proj(s, x, ('f', None, i, f)), f, d - 1)


def cases(ip, s, xs, ty):
    """the state, with every borrowed-or-owned value one or the other"""
    ks = [k for x in xs for k in cows(ip, s, x, ty)][:6]
    out = [s]
    for k in ks:
        nxt = []
        for q in out:
            for i in (0, 1):
                r = q.copy()
                if r.assume(eq0(addc(k, -i)), True):
                    nxt.append(r)
        out = nxt
    return out


def differ(sc, ip, s, cs, v, where):
    """do values that count as different differ?"""
    if cs is None or loose(s, v):
        return
    seen = state_terms(s) | {t for k in s.neq if isinstance(k, T) for t in subterms(k)} | subterms(v)
    for kind, x, y, cond in cs:
        if s.truth(cond) is True:
            continue
        if s.truth(cond) is False or x in seen or y in seen:
            return
    sc.ob(False, EQ, where, 'values with the same contents count as different')


# ---- any values --------------------------------------------------------------------------------
def equal(c, p, b, ty):
    where = loc(b)
    neg = b['item'] == 'ne'
    ip = interp(c, p)
    st = State()
    args, res = run_any(ip, b, two(ip, p, b, st), st)
    c.account(ip)
    for s, v in res:
        sc = Soft(c, ip, s, v)
        s1 = s.copy()
        if s1.assume(v, not neg):
            x, y = (load(ip, s1, a, ty) for a in args)
            for s2 in cases(ip, s1, (x, y), ty):
                verdict(sc, ip, s2, conds(ip, s2, x, y, ty), v, EQ, where, 'values that differ count as equal')
        s1 = s.copy()
        if s1.assume(v, neg):
            x, y = (load(ip, s1, a, ty) for a in args)
            for s2 in cases(ip, s1, (x, y), ty):
                differ(sc, ip, s2, conds(ip, s2, x, y, ty), v, where)
    ip = interp(c, p)
    st = State()
    args, res = run_any(ip, b, two(ip, p, b, st, True), st)
    for s, v in res:
        s1 = s.copy()
        if not s1.assume(v, neg):
            c.ob(True, EQ, where, 'a value equals itself')
        else:
            Soft(c, ip, s, v).ob(False if s.truth(v) is neg and not loose(s, v) else None, EQ, where, 'a value does not equal itself')
    for kind, stack, span, s in ip.panics:
        Soft(c, ip, s).ob(False, EQ, where, 'panics: %s at %s' % (kind, span))


def loose(s, v):
    """does the outcome rest on a loop's state, or on something not followed?"""
    return any(e.op == 'loop' for e in chain(s.ev)) or any(t.op in ('phi', 'havoc', 'ret') for t in subterms(v) | state_terms(s))


def ordering(ip, s, v, ty):
    """-1, 0, 1 of a decided Ordering"""
    d = s.norm(ip.discr(s, v, ty))
    ks = [k for k in (-1, 0, 1) if s.copy().assume(is_k(d, k), True)]
    return ks[0] if len(ks) == 1 else None


def is_k(d, k):
    """condition: an Ordering's number is k"""
    if d.op == 'cmp3':
        return eq0(d.a[0]) if k == 0 else ge0(addc(d.a[0], -1)) if k > 0 else ge0(addc(neg(d.a[0]), -1))
    return eq0(addc(d, -k))


def split(ip, s, v, ty):
    d = ip.discr(s, v, ty)
    for k in (-1, 0, 1):
        s2 = s.copy()
        if s2.assume(is_k(d, k), True):
            yield k, s2


def unwrap(p, v, ty):
    """the Ordering in a result of cmp or partial_cmp"""
    if p.types[ty].get('path') == 'std::option::Option':
        return (v.a[2][0] if v.op == 'agg' and v.a[1] == 1 else None), p.types[ty]['args'][0]
    return v, ty


def ordered(c, p, b, ty):
    where = loc(b)
    ip = interp(c, p)
    st = State()
    args, res = run_any(ip, b, two(ip, p, b, st), st)
    c.account(ip)
    for s, v in res:
        w, oty = unwrap(p, v, b['locals'][0])
        sc = Soft(c, ip, s, v)
        if w is None:
            sc.ob(False if v.op == 'agg' else None, ORD, where, 'values that cannot be ordered')
            continue
        for k, s1 in split(ip, s, w, oty):
            x, y = (load(ip, s1, a, ty) for a in args)
            if k == 0:
                for s2 in cases(ip, s1, (x, y), ty):
                    verdict(sc, ip, s2, conds(ip, s2, x, y, ty), v, ORD, where, 'values that differ are ordered the same')
            for s2, v2 in run_any(ip, b, [args[1], args[0]], s1.copy(), uniq('swap'))[1]:
                w2, _ = unwrap(p, v2, b['locals'][0])
                k2 = ordering(ip, s2, w2, oty) if w2 is not None else None
                Soft(c, ip, s2, v2).ob(True if k2 == -k else None if k2 is None or loose(s2, v2) else False, ORD, where, 'ordered %s, and %s when swapped' % (k, k2))
    ip = interp(c, p)
    st = State()
    args, res = run_any(ip, b, two(ip, p, b, st, True), st)
    for s, v in res:
        w, oty = unwrap(p, v, b['locals'][0])
        k = ordering(ip, s, w, oty) if w is not None else None
        Soft(c, ip, s, v).ob(True if k == 0 else None if k is None or loose(s, v) else False, ORD, where, 'a value is ordered the same as itself')
    for kind, stack, span, s in ip.panics:
        Soft(c, ip, s).ob(False, ORD, where, 'panics: %s at %s' % (kind, span))


def agree(c, p, b, cmpb, ty):
    """partial_cmp is cmp"""
    ip = interp(c, p)
    st = State()
    args, res = run_any(ip, b, two(ip, p, b, st), st)
    where = loc(b)
    for s, v in res:
        w, oty = unwrap(p, v, b['locals'][0])
        if w is None:
            continue
        for k, s1 in split(ip, s, w, oty):
            for s2, v2 in run_any(ip, cmpb, list(args), s1.copy(), uniq('agree'))[1]:
                k2 = ordering(ip, s2, v2, oty)
                Soft(c, ip, s2, v2).ob(True if k2 == k else None if k2 is None or loose(s2, v2) else False, ORD, where, 'partial_cmp says %s, cmp %s' % (k, k2))


def cloned(c, p, b, ty):
    where = loc(b)
    ip = interp(c, p)
    st = State()
    args, res = run_any(ip, b, two(ip, p, b, st), st)
    c.account(ip)
    for s, v in res:
        x = load(ip, s, args[0], ty)
        sc = Soft(c, ip, s, v)
        if s.norm(v) is s.norm(x):
            c.ob(True, CLN, where, 'copied')
            continue
        for s2 in cases(ip, s, (x, v), ty):
            verdict(sc, ip, s2, conds(ip, s2, x, v, ty), v, CLN, where, 'the clone differs')
    for kind, stack, span, s in ip.panics:
        Soft(c, ip, s).ob(False, CLN, where, 'panics: %s at %s' % (kind, span))


# ---- particular values, where loops hide what is compared ----------------------------------------
LABELS = [b'a', b'A', b'b', b'B', b'ab', b'aB', b'abc', b'a\0', b'\0a', b'a.b', b'\xe4', b'\xc4', b'_tcp', b'ba', b'd', b'x' * 20 + b'a', b'x' * 20 + b'b', b'x' * 20 + b'bc']
NAMES = [(), (b'a',), (b'A',), (b'b',), (b'a', b'b'), (b'b', b'a'), (b'a', b'B'), (b'ab',), (b'a.b',), (b'a', b'b', b'c'), (b'c', b'a', b'b'), (b'a', b'a'), (b'a', b'b', b'c', b'd')]


def label(p, bs):
    use(p)
    L = tyid(p, LB)
    fp = names.bytes_path(p, L)
    f = fp[0]
    if len(p.fields(L)) != 1:
        raise Unknown('representation of a label')
    op = 'box' if p.types[f[3]].get('path') == 'std::boxed::Box' else 'vec'
    return mk('agg', L, 0, (mk(op, mk('seq', tuple(('o', I(v)) for v in bs)), ty=f[3]),), ty=L)


def dname(p, ls):
    D = tyid(p, DN)
    if len(p.fields(D)) != 1:
        raise Unknown('representation of a name')
    f = p.fields(D)[0]
    if p.types[f].get('path') != 'std::vec::Vec':
        raise Unknown('representation of a name')
    return mk('agg', D, 0, (mk('vec', mk('seq', tuple(('o', label(p, x)) for x in ls)), ty=f),), ty=D)


TEXTS = [(b'',), (b'a',), (b'A',), (b'b',), (b'a', b'b'), (b'b', b'a'), (b'a', b'B'), (b'ab',), (b'a', b''), (b'', b'a'), (b'a', b'b', b'c'), (b'a=b',), (b'a=c',)]


def texts(p, ty, bs):
    fs = [(i, f) for i, f in enumerate(p.fields(ty)) if p.types[f].get('path') != 'std::marker::PhantomData']
    f = fs[0][1]
    cow = p.types[f]['args'][0] if p.types[f].get('path') == 'std::vec::Vec' else None
    if len(fs) != 1 or len(p.fields(ty)) != 1 or cow is None or p.types[cow].get('path') != 'std::borrow::Cow':
        raise Unknown('representation of %s' % p.ts(ty))
    vt = p.types[cow]['v'][1]['f'][0]['t']
    one = [mk('agg', cow, 1, (mk('vec', mk('seq', tuple(('o', I(v)) for v in x)), ty=vt),), ty=cow) for x in bs]
    return mk('agg', ty, 0, (mk('vec', mk('seq', tuple(('o', x) for x in one)), ty=f),), ty=ty)


def examples(c, p, b, ty, vals, same_order=False):
    where = loc(b)
    rule = EQ if b['item'] in ('eq', 'ne') else ORD
    terms = [(k, v) for k, v in vals]
    for i, (kx, x) in enumerate(terms):
        for j, (ky, y) in enumerate(terms):
            ip = interp(c, p, unroll=30)
            st = State()
            args = [mk('ref', on_value(ip, st, v, 'val')[0], ()) for v in (x, y)]
            args, res = run_any(ip, b, args, st, uniq('ex'))
            for s, v in res:
                if b['item'] in ('eq', 'ne'):
                    t = s.truth(v)
                    t = t if t is None or b['item'] == 'eq' else not t
                    if t is None or loose(s, v):
                        c.ob(None, rule, where, '%s and %s' % (kx, ky))
                    else:
                        Soft(c, ip, s, v).ob(t == (i == j), rule, where, '%s and %s count as %s' % (kx, ky, 'equal' if t else 'different'))
                else:
                    w, oty = unwrap(p, v, b['locals'][0])
                    k = ordering(ip, s, w, oty) if w is not None and not loose(s, v) else None
                    if k is None:
                        c.ob(None, rule, where, '%s and %s' % (kx, ky))
                    else:
                        Soft(c, ip, s, v).ob((k == 0) == (i == j), rule, where, '%s and %s are ordered %s' % (kx, ky, k))
            c.stats['entries'] += 1


def copies(c, p, b, ty, vals):
    where = loc(b)
    for k, x in vals:
        ip = interp(c, p, unroll=30)
        st = State()
        for s, v in run_any(ip, b, [mk('ref', on_value(ip, st, x, 'val')[0], ())], st, uniq('cp'))[1]:
            q, r = parts(ip, s, x, ty), parts(ip, s, v, ty)
            d = [models.const_cmp(y[1], z[1]) for y, z in zip(q, r)] if q and r and len(q) == len(r) else [None]
            Soft(c, ip, s, v).ob(None if None in d or loose(s, v) else not any(d), CLN, where, 'a copy of %s' % k)


def triples(c, p, b, ty, vals):
    """the order of the examples is a total one"""
    where = loc(b)
    r = {}
    for i, (kx, x) in enumerate(vals):
        for j, (ky, y) in enumerate(vals):
            ip = interp(c, p, unroll=30)
            st = State()
            args = [mk('ref', on_value(ip, st, v, 'val')[0], ()) for v in (x, y)]
            ks = set()
            for s, v in run_any(ip, b, args, st, uniq('tr'))[1]:
                w, oty = unwrap(p, v, b['locals'][0])
                ks.add(ordering(ip, s, w, oty) if w is not None and not tainted(ip, s, v) and not loose(s, v) else None)
            r[i, j] = ks.pop() if len(ks) == 1 else None
    n = range(len(vals))
    if None in r.values():
        c.ob(None, ORD, where, 'order of the examples')
        return
    for i in n:
        for j in n:
            if r[i, j] != -r[j, i]:
                c.ob(False, ORD, where, '%s and %s' % (vals[i][0], vals[j][0]))
                return
            for k in n:
                if r[i, j] == r[j, k] == -1 and r[i, k] != -1:
                    c.ob(False, ORD, where, '%s before %s before %s, but not in a row' % (vals[i][0], vals[j][0], vals[k][0]))
                    return
    c.ob(True, ORD, where, '%d examples are in a total order' % len(vals))


def particular(c, p, b, ty):
    path = p.types[ty].get('path')
    if path == LB:
        vals = [(repr(x)[1:], label(p, x)) for x in LABELS]
    elif path == DN:
        vals = [(repr([y.decode('latin1') for y in x]), dname(p, x)) for x in NAMES]
    elif path and path.endswith('::records::TXT'):
        vals = [(repr([y.decode('latin1') for y in x]), texts(p, ty, x)) for x in TEXTS]
    else:
        return
    if b['item'] == 'clone':
        copies(c, p, b, ty, vals)
        return
    examples(c, p, b, ty, vals)
    if b['item'] in ('cmp', 'partial_cmp'):
        triples(c, p, b, ty, vals)


def c39(c):
    """Every implementation of equality, ordering and cloning of the library's types is run on arbitrary values: where it answers
    "equal" each part of the one value is that part of the other (numbers, byte strings, sequences of labels, the name a Cow stands for), a value equals
    itself, an ordering is Equal only then, is reversed when the operands are swapped and is the same for cmp and partial_cmp, and a clone has each part
    of its original. Labels and names, which may be compared in loops, are also compared for particular short values with every loop unrolled."""
    p = c.prog()
    cmps = {ty: b for b, ty in bodies(p, 'cmp')}
    n = 0
    for item, f in (('eq', equal), ('ne', equal), ('cmp', ordered), ('partial_cmp', ordered), ('clone', cloned)):
        for b, ty in bodies(p, item):
            n += 1
            c.group(b['path'], f, c, p, b, ty)
            if item == 'partial_cmp' and ty in cmps:
                c.group(b['path'], agree, c, p, b, cmps[ty], ty)
            c.group(b['path'], particular, c, p, b, ty)
    c.ob(True if n else None, 'analysed', 'crate uwuhi', '%d implementations' % n)


def comparisons(c, items, paths):
    """the implementations other properties rely on"""
    p = c.prog()
    for item in items:
        f = {'eq': equal, 'ne': equal, 'cmp': ordered, 'partial_cmp': ordered}[item]
        for b, ty in bodies(p, item):
            if p.types[ty].get('path') in paths:
                c.group(b['path'], f, c, p, b, ty)
                c.group(b['path'], particular, c, p, b, ty)


PROPS = {'C39': c39}
