"""Labels (C03), textual domain names (C29)."""
from base import *
from util import *

LB = 'uwuhi::name::Label'
DN = 'uwuhi::name::DomainName'
ERR = 'uwuhi::error::Error'


def tyid(p, path):
    for i, t in enumerate(p.types):
        if t.get('path') == path and t['k'] in ('struct', 'enum'):
            return i
    raise NoAnchor('type %s' % path)


def errvar(p, name):
    t = p.types[tyid(p, ERR)]
    for i, v in enumerate(t['v']):
        if v['n'] == name:
            return i
    raise NoAnchor('Error::' + name)


def bytes_path(p, ty):
    """projections from a struct to the byte content it owns"""
    for i, f in enumerate(p.fields(ty)):
        t = p.types[f]
        if t.get('path') in ('std::boxed::Box', 'std::vec::Vec'):
            return (('f', None, i, f), ('v',))
    raise Unknown('representation of %s' % p.ts(ty))


def label_bytes(ip, st, v):
    return walk(ip, st, v, bytes_path(ip.p, tyid(ip.p, LB)))


def label_inv(p):
    path = bytes_path(p, tyid(p, LB))

    def f(ip, t):
        n = ip.length(walk(ip, State(), t, path))
        return [addc(n, -1), sub(I(63), n)]
    return f


def is_err(v, k=None):
    return v.op == 'agg' and v.a[1] == 1 and (k is None or (v.a[2][0].op == 'agg' and v.a[2][0].a[1] == k))


def is_ok(v):
    return v.op == 'agg' and v.a[1] == 0


def c03(c):
    """Type invariant by induction: every construction of a Label (struct expression or constructor call) and every mutable access to its
    bytes is found in the program; each is reached from every function through which code outside the defining module can get there, and in every abstract state
    there the label must hold 1 to 63 bytes. The constructors' outcomes are compared with the specification for lengths 0, 1..63, and above."""
    p = c.prog()
    L = tyid(p, LB)
    c.group(LB, label_sites, c, p, L)
    for crate in ('uwuhi',):
        for nm in ('Label::try_new', 'Label::new'):
            c.group('name::' + nm, label_ctor, c, p, nm)
        c.group('<Label as FromStr>', label_ctor, c, p, '<uwuhi::name::Label as std::str::FromStr>::from_str')
    # no field of Label may be open to the outside
    t = p.types[L]
    for a in p.d['adts']:
        if a['path'] == LB:
            for f in p.types[a['ty']]['v'][0]['f']:
                if 'vis' in f:
                    c.ob(f['vis'] != 'pub', 'the bytes of a label are private', LB + '.' + f['n'], '')


def place_tys(p, b, pl):
    ty = b['locals'][pl[0]]
    out = [ty]
    for e in pl[1]:
        if e[0] == '*':
            t = p.types[ty]
            ty = t.get('e') if t.get('e') is not None else (t.get('args') or [None])[0]
        elif e[0] == 'f':
            ty = e[2] if len(e) > 2 else None
        elif e[0] in ('i', 'ci'):
            ty = p.types[ty].get('e')
        if ty is None:
            return out
        out.append(ty)
    return out


def label_sites(c, p, L):
    type_sites(c, p, L, 'uwuhi::name', label_entry, label_inv(p), 'constructions of labels found')


def type_sites(c, p, L, module, entry, inv, found):
    makes, muts = [], []
    for b in p.d['bodies']:
        if not b.get('local') or b['body'] is None:
            continue
        mk_, mu = [False], [False]

        def f(x):
            if len(x) >= 2 and x[0] == 'agg' and isinstance(x[1], list) and x[1][:1] == ['adt'] and x[1][1] == L:
                mk_[0] = True
            if len(x) >= 3 and x[0] == '=' and isinstance(x[1], list):
                try:
                    if L in place_tys(p, b, x[1])[:-1]:
                        mu[0] = True
                    r = x[2]
                    if r[0] == 'ref' and r[1] and L in place_tys(p, b, r[2])[:-1]:
                        mu[0] = True
                except (KeyError, IndexError, TypeError):
                    pass
        walk_json(b['body'], f)
        if mk_[0] or any(p.bodies.get(i) and False for i in ()):
            makes.append(b)
        if mu[0]:
            muts.append(b)
    # constructor functions used as values or called
    ents = outward(p, makes + muts, module)
    c.ob(bool(makes), found, p.types[L]['path'], ', '.join(sorted({b['path'] for b in makes})))
    seen = set()
    for b in ents:
        if b['path'] in seen and b['id'] not in p.roots:
            continue
        seen.add(b['path'])
        c.group(loc(b), entry, c, p, b, inv)


def label_entry(c, p, b, inv):
    ip = c.interp(p, compact=4, noev=1, max_steps=60000)
    ip.struct_inv[LB] = inv
    n = [0]

    def made(ip, st, fr, v):
        n[0] += 1
        ln = ip.length(label_bytes(ip, st, v))
        good = st.entails(addc(ln, -1)) and st.entails(sub(I(63), ln))
        c.ob(good, 'a label is only made of 1 to 63 bytes', '%s, reached from %s' % (loc(fr.b), b['path']), 'length %s' % show(st.norm(ln)) if not good else '')
    ip.on_agg[LB] = made
    args, res = ip.entry(b)
    c.account(ip)
    for i in range(b['argc']):
        t = p.types[b['locals'][i + 1]]
        if t['k'] == 'ref' and t.get('mut') and p.types[t['e']].get('path') == LB:
            for s, _ in res:
                v = ip.load(s, ('S', args[i]), ())
                ln = ip.length(label_bytes(ip, s, v))
                good = s.entails(addc(ln, -1)) and s.entails(sub(I(63), ln))
                c.ob(good, 'a label still holds 1 to 63 bytes after being changed', loc(b), 'length %s' % show(s.norm(ln)))
    if not n[0]:
        c.ob(True, 'makes no label itself', loc(b), '')


def label_ctor(c, p, nm):
    full = nm if nm.startswith('<') else 'uwuhi::name::' + nm
    bs = p.npath.get(full)
    if not bs:
        raise NoAnchor('no function ' + full)
    good = [b for b in bs if p.types[b['locals'][1]]['k'] == 'ref'] or bs
    b = sorted(good, key=lambda b: b['id'])[0]
    panicking = nm.endswith('::new')
    ip = c.interp(p, exact=1)
    ip.struct_inv[LB] = label_inv(p)
    args, res = ip.entry(b)
    c.account(ip)

    def src(st):
        if p.types[b['locals'][1]]['k'] == 'ref':
            return ip.slice_content(st, args[0])
        for e in events(st):
            if e.op == 'ev' and e.a[1][0] == 'call' and 'as_ref' in str(e.a[1][1]):
                return ip.slice_content(st, e.a[1][3])
        raise Unknown('input of ' + nm)
    em, lo = errvar(p, 'InvalidEmptyLabel'), errvar(p, 'LabelTooLong')
    hit = set()
    for s, v in res:
        ct, off, n = src(s)
        for k, conds in (('empty', [(eq0(n), True)]), ('1 to 63 bytes', [(ge0(addc(n, -1)), True), (ge0(sub(I(63), n)), True)]), ('64 bytes or more', [(ge0(addc(n, -64)), True)])):
            s2 = s.copy()
            if not all(s2.assume(x, pol) for x, pol in conds):
                continue
            hit.add(k)
            if panicking:
                if k != '1 to 63 bytes':
                    c.ob(False, 'the panicking constructor refuses invalid labels', loc(b) + ', ' + k, 'returns %s' % show(v))
                    continue
                lab = v
            else:
                if k == 'empty':
                    c.ob(is_err(v, em), 'an empty label is reported as such', loc(b), 'returns %s' % show(v))
                    continue
                if k == '64 bytes or more':
                    c.ob(is_err(v, lo), 'an over-long label is reported as such', loc(b), 'returns %s' % show(v))
                    continue
                c.ob(is_ok(v), 'a valid label is accepted', loc(b), 'returns %s' % show(v))
                if not is_ok(v):
                    continue
                lab = v.a[2][0]
            got = label_bytes(ip, s2, lab)
            want = ip.subseq(s2, ct, off, n)
            c.ob(same_content(ip, s2, got, want), 'a label holds the given bytes', loc(b), 'holds %s' % show(got))
    want = {'1 to 63 bytes'} if panicking else {'empty', '1 to 63 bytes', '64 bytes or more'}
    for k in want - hit:
        c.ob(False, 'every label length is handled', loc(b) + ', ' + k, 'no outcome')
    for kind, stack, span, s in ip.panics:
        if not panicking:
            c.ob(False, 'the fallible constructor does not panic', loc(b), '%s at %s' % (kind, span))
        else:
            ct, off, n = src(s)
            s2 = s.copy()
            feas = s2.assume(ge0(addc(n, -1)), True) and s2.assume(ge0(sub(I(63), n)), True)
            c.ob(not feas, 'the panicking constructor accepts valid labels', loc(b), '%s at %s' % (kind, span))


def same_content(ip, st, a, b):
    a, b = st.norm(a), st.norm(b)
    if a is b:
        return True
    pa, pb = parts_of(ip, st, a), parts_of(ip, st, b)
    return len(pa) == len(pb) and same_parts(st, pa, pb)


# ---- C29 --------------------------------------------------------------------------------------
def c29(c):
    """The parser's loop is summarised: per iteration one label is appended whose bytes are the iteration's part of the text split at
    dots, the loop ends only when all parts are consumed, and a part that is not a valid label makes the parse fail with that label's error. Every function that
    appends, collects or iterates labels is summarised the same way."""
    p = c.prog()
    dpath = None
    D = tyid(p, DN)
    fs = [i for i, f in enumerate(p.fields(D)) if p.types[f].get('path') == 'std::vec::Vec']
    if not fs:
        c.ob(None, 'analysed', DN, 'representation of DomainName')
        return
    dpath = (('f', None, fs[0], p.fields(D)[fs[0]]), ('v',))
    for nm in ('<uwuhi::name::DomainName as std::str::FromStr>::from_str', 'uwuhi::name::DomainName::from_str'):
        c.group(nm, parse_name, c, p, nm, dpath)
    c.group(DN + '::push_label', push_label, c, p, dpath)
    c.group(DN + ' collecting', collecting, c, p, dpath)
    c.group(DN + ' iterating', iterating, c, p, dpath)


def parse_name(c, p, nm, dpath):
    b = fn(p, nm)
    ip = c.interp(p, exact=1)
    ip.struct_inv[LB] = label_inv(p)
    args, res = ip.entry(b)
    c.account(ip)
    rule = 'a name is parsed into its dot-separated parts'
    em, lo = errvar(p, 'InvalidEmptyLabel'), errvar(p, 'LabelTooLong')
    for kind, stack, span, s in ip.panics:
        c.ob(False, 'parsing never panics', loc(b), '%s at %s' % (kind, span))
    oks = 0
    for s, v in res:
        ct, off, n = ip.slice_content(s, args[0])
        if is_err(v):
            # some part is not a valid label
            e = v.a[2][0]
            good = None
            if e.op == 'agg':
                parts = [x for x in state_terms(s) if x.op == 'splitpart']
                for x in parts:
                    ln = ip.length(x)
                    if e.a[1] == em and s.entails_eq(ln, I(0)) or e.a[1] == lo and s.entails(addc(ln, -64)):
                        good = True
                if good is None and parts and e.a[1] not in (em, lo):
                    good = False
                if good is None and parts and all(s.entails(addc(ip.length(x), -1)) and s.entails(sub(I(63), ip.length(x))) for x in parts):
                    good = False
                if good and not dot_split(parts, ct):
                    good = None
                for x in parts:
                    if good and x.a[1] == 'split' and x.a[0] is ct and e.a[1] == em and s.entails_eq(ip.length(x), I(0)) and x.a[3].op == 'phi':
                        s2 = s.copy()
                        np_ = mk('nparts', *x.a[:3], rng=(0, WIDE))
                        if s2.assume(eq0(addc(sub(np_, x.a[3]), -1)), True) and s2.assume(ge0(addc(x.a[3], -1)), True):
                            good = False
            c.ob(good, 'a parse fails only because of an invalid part, and says which kind', loc(b), show(v))
            continue
        if not is_ok(v):
            c.ob(None, rule, loc(b), 'outcome %s' % show(v))
            continue
        oks += 1
        labels = walk(ip, s, v.a[2][0], dpath)
        seq = sequence(ip, s, labels)
        if not seq:
            # no labels: the text is "." or empty
            s2, s3 = s.copy(), s.copy()
            dot = ip.proj(s, ct, ('i', off))
            good = (not s2.assume(ge0(addc(n, -2)), True)) and not (s3.assume(eq0(addc(n, -1)), True) and s3.assume(eq0(addc(dot, -46)), False))
            if not good:
                # acceptable as well: nothing is left after splitting
                good = any(x.op == 'nparts' and s.entails_eq(x, I(0)) for x in state_terms(s)) or None
            c.ob(good, 'only "." and the empty string have no labels', loc(b), '')
            continue
        if len(seq) != 1 or seq[0][0] != 'each':
            c.ob(None, rule, loc(b), 'labels are %s' % show(labels))
            continue
        each = seq[0][1]
        if not each.recs:
            c.ob(None, rule, loc(b), 'no iteration')
        total = None
        for r, x in each.recs:
            if x is None:
                part = [y for y in state_terms(r.back) if y.op == 'splitpart']
                c.ob(False if part else None, 'no part of the text is dropped', loc(b), 'an iteration adds no label')
                continue
            lab = x
            got = label_bytes(ip, r.back, lab)
            q = parts_of(ip, r.back, got)
            if len(q) != 1 or q[0][0] != 'span' or q[0][1].op != 'splitpart':
                bad = any(y.op == 'splitpart' for y in subterms(got))
                c.ob(False if bad else None, rule, loc(b), 'a label is %s' % show(got))
                continue
            sp = q[0][1]
            whole = r.back.entails_eq(q[0][2], I(0)) and r.back.entails_eq(q[0][3], ip.length(sp))
            if sp.a[0] is ct:
                c.ob(whole and is_dot(sp), rule, loc(b), 'label is %s' % show(got))
                c.ob(True if sp.a[1] in ('split_terminator', 'split') else None, 'exactly one trailing dot is optional', loc(b), 'splits with %s' % sp.a[1])
            else:
                c.ob(True if whole and is_dot(sp) and stripped(ip, r.back, sp.a[0], ct, off, n) else None, rule, loc(b), 'label is %s' % show(got))
            hl = head_len(ip, r, each)
            idx = sp.a[3]
            c.ob(True if hl is not None and r.back.entails_eq(hl, idx) else None, 'the parts keep their order', loc(b), 'label %s is part %s' % (show(hl) if hl is not None else '?', show(idx)))
            total = mk('nparts', *sp.a[:3], rng=(0, WIDE)) if total is None else total
        if total is not None:
            np = [x for x in state_terms(s) if x.op == 'nparts']
            ln = ip.length(each.term)
            good = None
            for x in np:
                if s.entails_eq(ln, x):
                    good = True
                elif x.a[1] == 'split' and s.entails_eq(ln, addc(x, -1)):
                    last = [y for y in state_terms(s) if y.op == 'splitpart' and y.a[:3] == x.a and s.entails_eq(y.a[3], ln)]
                    good = True if any(s.entails_eq(ip.length(y), I(0)) for y in last) else None
                elif s.entails(addc(sub(x, ln), -2)) or x.a[1] == 'split_terminator' and s.entails(addc(sub(x, ln), -1)):
                    good = False
            c.ob(good, 'every part becomes a label', loc(b), 'number of labels %s' % show(s.norm(ln)))
    c.ob(oks > 0, 'names can be parsed', loc(b), '')


WIDE = (1 << 63) - 1


def dot_split(parts, ct):
    return all(x.a[0] is ct and is_dot(x) for x in parts)


def stripped(ip, st, t, ct, off, n):
    """t is the text without its final dot, which is known to be there"""
    q = parts_of(ip, st, t)
    if len(q) != 1 or q[0][0] != 'span' or q[0][1] is not ct or not st.entails_eq(q[0][2], off) or not st.entails_eq(q[0][3], addc(n, -1)):
        return False
    return st.entails_eq(ip.proj(st, ct, ('i', addc(add(off, n), -1))), I(46))


def is_dot(sp):
    return sp.a[2].op == 'pat' and sp.a[2].a[0] in (b'.', '.') or show(sp.a[2]) == "pat(b'.')"


def head_len(ip, r, each):
    """length of the sequence at the head of the iteration"""
    if each.term.op == 'phi':
        return ip.length(each.term)
    for k, v in r.head.mem.items():
        if k[0] == 'T' and k[-1] == 'acc':
            w = v.a[0] if v.op == 'vec' else None
            if w is not None:
                return ip.length(w)
    return None


def push_label(c, p, dpath):
    b = fn(p, DN + '::push_label')
    ip = c.interp(p, exact=1)
    args, res = ip.entry(b)
    c.account(ip)
    old = walk(ip, State(), ip.load(State(), ('S', args[0]), ()), dpath) if False else None
    if not res:
        c.ob(False, 'appending a label adds it at the end', loc(b), 'never returns')
    for s, _ in res:
        new = walk(ip, s, ip.load(s, ('S', args[0]), ()), dpath)
        q = parts_of(ip, s, new)
        s0 = State()
        ip.deref(s0, args[0], p.types[b['locals'][1]]['e'])
        o = walk(ip, s0, ip.load(s0, ('S', args[0]), ()), dpath)
        good = len(q) == 2 and q[0][0] == 'span' and q[0][1] is o and s.entails_eq(q[0][2], I(0)) and s.entails_eq(q[0][3], ip.length(o)) and q[1] == ('one', args[1])
        c.ob(good, 'appending a label adds it at the end', loc(b), show(new))
    for kind, stack, span, s in ip.panics:
        c.ob(False, 'appending never panics', loc(b), '%s at %s' % (kind, span))


def collecting(c, p, dpath):
    n = 0
    for b in p.d['bodies']:
        if b['body'] is None or not b.get('local') or b['id'] not in p.roots or not b.get('trait') or DN not in (b.get('self') or ''):
            continue
        tr = npath(b['trait'])
        if not (tr.endswith('Extend') or tr.endswith('FromIterator')) or b.get('item') not in ('extend', 'from_iter'):
            continue
        n += 1
        c.group(loc(b), collect_one, c, p, b, b['item'] == 'extend', dpath)
    c.ob(n >= 4, 'functions collecting labels found', DN, '%d' % n)


def collect_one(c, p, b, ext, dpath):
    rule = 'collecting keeps every label in order'
    ip = c.interp(p, exact=1)
    args, res = ip.entry(b)
    c.account(ip)
    if not res:
        c.ob(False, rule, loc(b), 'never returns')
    for s, v in res:
        new = walk(ip, s, ip.load(s, ('S', args[0]), ()) if ext else v, dpath)
        seq = sequence(ip, s, new)
        if ext:
            if not seq or seq[0][0] != 'span' or 'a0' not in show(seq[0][1]):
                c.ob(False if seq and seq[0][0] == 'each' and len(seq) == 2 else None, 'extending keeps the labels already there', loc(b), show(new))
                continue
            seq = seq[1:]
        if len(seq) != 1 or seq[0][0] != 'each':
            c.ob(None, rule, loc(b), show(new))
            continue
        for r, x in seq[0][1].recs:
            nx = [e for e in r.evs if e.op == 'ev' and e.a[1][0] == 'next']
            if len(nx) != 1:
                c.ob(None, rule, loc(b), '%d items taken in one iteration' % len(nx))
                continue
            el = nx[0].a[1][2]
            c.ob(x is not None, 'no label is dropped', loc(b), 'iteration adds %s' % (show(x) if x is not None else 'nothing'))
            if x is not None:
                same = x is el or (x.op == 'deref' and x.a[0] is el) or label_same(ip, r.back, x, el)
                c.ob(same, rule, loc(b), 'taken %s, added %s' % (show(el), show(x)))


def label_same(ip, st, x, el):
    try:
        a = label_bytes(ip, st, x)
    except Exception:
        return None
    for y in (el, mk('deref', el, ty=tyid(ip.p, LB))):
        try:
            if same_content(ip, st, a, label_bytes(ip, st, y)):
                return True
        except Exception:
            pass
    return None


def iterating(c, p, dpath):
    for b in p.d['bodies']:
        if b['body'] is None or not b.get('local') or b['id'] not in p.roots or b.get('item') not in ('into_iter', 'labels') or DN not in (b.get('self') or ''):
            continue
        ip = c.interp(p, exact=1)
        args, res = ip.entry(b)
        c.account(ip)
        for s, v in res:
            it = v
            while it.op == 'agg' and len(it.a[2]) == 1:
                it = it.a[2][0]
            if it.op == 'iter' and it.a[0] in ('own', 'slice'):
                st_, en = (it.a[2], it.a[3]) if it.a[0] == 'own' else (it.a[3], it.a[4])
                ct = it.a[1] if it.a[0] == 'own' else ip.load(s, it.a[1], it.a[2])
                c.ob(s.entails_eq(st_, I(0)) and s.entails_eq(en, ip.length(ct)), 'iterating visits every label in order', loc(b), show(v))
            elif it.op == 'slice' or (it.ty is not None and p.types[it.ty]['k'] == 'ref'):
                root, path, off, n = ip.slice_of(s, it, None)
                ct = ip.load(s, root, path)
                c.ob(s.entails_eq(off, I(0)) and s.entails_eq(n, ip.length(ct)), 'iterating visits every label in order', loc(b), show(v))
            else:
                c.ob(None, 'iterating visits every label in order', loc(b), show(v))
    # the iterator's next takes the elements of the wrapped iterator one by one
    for b in p.d['bodies']:
        if b['body'] is None or not b.get('local') or b['id'] not in p.roots or b.get('item') != 'next' or not re.match(r'uwuhi::name::(IntoIter|Iter)\b', b.get('self') or ''):
            continue
        ip = c.interp(p, exact=1)
        args, res = ip.entry(b)
        c.account(ip)
        for s, v in res:
            nx = [e for e in events(s) if e.op == 'ev' and e.a[1][0].startswith('next')]
            if v.op == 'agg' and v.a[1] == 1:
                good = len(nx) == 1 and nx[0].a[1][0] == 'next' and nx[0].a[1][2] is v.a[2][0]
                c.ob(good if nx else None, 'an iterator yields the labels one after the other', loc(b), show(v))


PROPS = {'C03': c03, 'C29': c29}
