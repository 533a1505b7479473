"""C38: errors say what went wrong"""
from base import *
from util import *
import models, names, wire, printed
from absenc import run_any, chain, decoder_summary, kind
from decoding import uniq, DEC, READER, reader_inv, reader_run, NameLoop, name_iterations, top2, delegates, dep_terms
from wire import PK, find_name_reader

ERR = 'uwuhi::error::Error'
RULE = 'an error of the decoder has the matching kind'
RETRY = ('WouldBlock', 'TimedOut', 'Interrupted')
KINDS = {'Eof': ('UnexpectedEof',), 'PointerLoop': ('InvalidData',), 'InvalidValue': ('InvalidData',), 'InvalidEmptyLabel': ('InvalidInput', 'InvalidData'),
         'LabelTooLong': ('InvalidInput', 'InvalidData'), 'Truncated': None}


def errty(p):
    for i, t in enumerate(p.types):
        if t.get('path') == ERR and t['k'] == 'enum':
            return i
    raise NoAnchor('no type ' + ERR)


def variant(p, e):
    """name of a constant error"""
    if isinstance(e, T) and e.op == 'agg' and e.a[1] is not None and e.ty is not None and p.types[e.ty].get('path') == ERR:
        return p.types[e.ty]['v'][e.a[1]]['n']
    if isinstance(e, T) and e.op == 'agg' and e.a[0] is not None and isinstance(e.a[0], int) and p.types[e.a[0]].get('path') == ERR:
        return p.types[e.a[0]]['v'][e.a[1]]['n']


def returns_error(p, b):
    rt = p.types[b['locals'][0]]
    if rt.get('path') == 'std::option::Option' and rt.get('args'):
        rt = p.types[rt['args'][0]]
    return rt.get('path') == 'std::result::Result' and len(rt.get('args') or ()) == 2 and p.types[rt['args'][1]].get('path') == ERR


def errors_of(p, ip, s, v, ty):
    """errors a returned value holds: Err(e), Some(Err(e))"""
    if not isinstance(v, T) or v.op != 'agg' or v.a[1] is None:
        return []
    t = p.types[ty]
    if t.get('path') == 'std::option::Option':
        return errors_of(p, ip, s, v.a[2][0], t['args'][0]) if v.a[1] == 1 else []
    return [v.a[2][0]] if v.a[1] == 1 else []


def name_summary(ip, p):
    """the reader of names: any name, or an error of its own"""
    for b in find_name_reader(p):
        def f(c, st, args, b=b):
            n = mk('sym', uniq('name'), ty=p.types[b['locals'][0]]['args'][0])
            e = mk('sym', uniq('name.err'), ty=p.types[b['locals'][0]]['args'][1])
            s2 = st.copy()
            c.ip.havoc_ref(st, args[0], p.types[b['locals'][1]]['e'], c)
            for t in list(c.ip.unk):
                if t.op != 'sym' and 'havoc' in str(t.a[0])[:8]:
                    c.ip.unk.discard(t)
            c.ip.emit(s2, 'name.err', e)
            return [(st, models.ok(c, n)), (s2, models.err(c, e))]
        ip.summaries[b['id']] = f
    return ip


# ---- names -------------------------------------------------------------------------------------
def name_errors(c, p, b):
    ip, args, res, rty = reader_run(c, p, b)
    L = NameLoop(p, ip, args, rty)
    where = loc(b)
    if not L.recs:
        c.ob(True if delegates(p, b) else None, 'analysed', where, 'no loop')
        return
    (k, sp), its = name_iterations(c, L, b)
    xs = {x for r, kd, x, y, pos in its if x is not None}
    n = 0
    for s, v in res:
        for e in errors_of(p, ip, s, v, b['locals'][0]):
            var = variant(p, e)
            n += 1
            if var is None:
                c.ob(None, RULE, where, 'error %s' % show(e))
                continue
            cur = [x for x in xs if x in state_terms(s)]
            if len({m for m, r in L.recs}) > 1:
                ts = dep_terms(s)
                cur = [x for x in cur if L.byte(s, x) in ts or any(t.op == 'elem' and t.a[0] is L.ct and t.a[1] is s.norm(add(L.off, x)) for t in ts)]
            if not cur:
                c.ob(None, RULE, where, 'error %s' % var)
                continue
            cur = [x for x in cur if possible(L, s, x)]
            if not cur:
                continue
            fit = [may(L, s, x, var) for x in cur]
            Soft(c, ip, s).ob(True if any(fit) else False, RULE, where, 'reports %s although %s' % (var, 'that is not what is wrong here'))
    c.ob(True if n else None, 'analysed', where, '%d errors' % n)


def possible(L, s, x):
    """is there a value of the byte at the cursor with which this state can be reached?"""
    lb = L.byte(s, x)
    for q in range(4):
        s2 = s.copy()
        if s2.assume(ge0(addc(lb, -64 * q)), True) and s2.assume(ge0(sub(I(64 * q + 63), lb)), True) and s2.assume(eq0(addc(top2(s2, lb), -q)), True):
            return True
    return s.copy().assume(ge0(sub(x, L.n)), True)


def may(L, s, x, var):
    """is the error the right one in some case of this state, with the cursor at x?"""
    rest = sub(L.n, x)
    lb = L.byte(s, x)

    def case(*cs):
        s2 = s.copy()
        return all(s2.assume(f() if callable(f) else f, True) for f in cs)
    if var == 'Eof':
        if case(ge0(sub(I(0), rest))):
            return True
        if case(ge0(addc(rest, -1)), eq0(top2(s, lb)), ge0(sub(lb, addc(rest, -1)))) and not s.entails_eq(lb, I(0)):
            s2 = s.copy()
            return s2.assume(ge0(addc(rest, -1)), True) and s2.assume(eq0(top2(s2, lb)), True) and s2.assume(ge0(sub(lb, rest)), True)
        return case(eq0(addc(rest, -1)), eq0(addc(top2(s, lb), -3)))
    if var == 'PointerLoop':
        return case(ge0(addc(rest, -2)), eq0(addc(top2(s, lb), -3)))
    if var == 'InvalidValue':
        return any(case(ge0(addc(rest, -1)), eq0(addc(top2(s, lb), -q))) for q in (1, 2))
    return False


# ---- the other readers -------------------------------------------------------------------------
def readers(c, p):
    names_ = {b['id'] for b in find_name_reader(p)}
    todo = []
    for b in p.d['bodies']:
        if not b.get('body') or b.get('crate') != 'uwuhi' or not b.get('local') or b['id'] in names_ or '{closure' in b['path'] or not returns_error(p, b) or b['id'] not in p.roots and not in_decoder(p, b):
            continue
        if in_decoder(p, b) or b.get('item') == 'decode' or npath(b['path']) == PK + 'records::Record::from_rr':
            todo.append(b)
    for b in todo:
        c.group(loc(b), reader, c, p, b)
    c.ob(True if todo else None, 'analysed', DEC, '%d reading functions' % len(todo))


def in_decoder(p, b):
    return npath(b['path']).startswith((DEC + 'Reader::', DEC + 'MessageDecoder::', DEC + 'ResourceRecord::')) and not npath(b['path']).endswith('::format')


def reader(c, p, b):
    ip = c.interp(p, exact=1, maxstates=400, noev=0)
    ip.struct_inv[READER] = reader_inv(p)
    name_summary(ip, p)
    own = npath(b['path'])
    if own.startswith(DEC + 'MessageDecoder::') and own.rsplit('::')[-1] in ('answers', 'authority', 'additional'):
        decoder_summary(ip, p, True)
    args, res = run_any(ip, b)
    c.account(ip)
    n = 0
    for s, v in res:
        for e in errors_of(p, ip, s, v, b['locals'][0]):
            var = variant(p, e)
            n += 1
            sc = Soft(c, ip, s, e)
            old = [x.a[1][1] for x in chain(s.ev) if kind(x) == 'name.err']
            if old and old[-1] is not e:
                sc.ob(False, 'an error is passed on as it is', loc(b), 'reports %s instead of the error of the name' % (var or show(e)[:40]))
            elif var is not None:
                # nothing but the end of the data can be wrong with fields of fixed size
                sc.ob(True if var == 'Eof' else False, RULE, loc(b), 'reports %s' % var)
            else:
                sc.ob(True if passed(ip, s, e) else None, 'an error is passed on as it is', loc(b), show(e)[:60])
    c.ob(True, 'analysed', loc(b), '%d errors' % n)


def passed(ip, s, e):
    return isinstance(e, T) and any(t.op == 'sym' and ('name.err' in str(t.a[0]) or 'err' in str(t.a[0])) or t.op in ('ret', 'fld') for t in subterms(e))


# ---- conversion --------------------------------------------------------------------------------
def conversion(c, p):
    E = errty(p)
    bs = [b for b in p.d['bodies'] if b.get('body') and b.get('item') == 'from' and b.get('local') and b['argc'] == 1 and b['locals'][1] == E and p.types[b['locals'][0]].get('path') == 'std::io::Error']
    if not bs:
        c.ob(False, 'errors convert into I/O errors', ERR, 'there is no conversion')
        return
    b = bs[0]
    for i, vr in enumerate(p.types[E]['v']):
        ip = c.interp(p, exact=1)
        args, res = ip.entry(b, [mk('agg', E, i, (), ty=E)])
        c.account(ip)
        for s, v in res:
            k = kind_name(p, v)
            sc = Soft(c, ip, s, v)
            if k is None:
                sc.ob(None, 'a decoding error is no timeout', loc(b), '%s becomes %s' % (vr['n'], show(v)[:60]))
                continue
            sc.ob(k not in RETRY, 'a decoding error is no timeout', loc(b), '%s becomes %s' % (vr['n'], k))
            want = KINDS.get(vr['n'])
            if want:
                sc.ob(k in want, 'an I/O error keeps the kind of the error', loc(b), '%s becomes %s' % (vr['n'], k))
        c.ob(True if res else None, 'analysed', loc(b), vr['n'])


def kind_name(p, v):
    if v.op == 'ioerr' and v.a[0].op == 'agg' and v.a[0].a[1] is not None:
        k = v.a[0]
        t = k.ty if k.ty is not None else k.a[0]
        if isinstance(t, int) and p.types[t]['k'] == 'enum':
            return p.types[t]['v'][k.a[1]]['n']
    if v.op == 'ioerr' and v.a[0].op == 'zst':
        return 'Other'


def displays(c, p):
    """every kind of error has a text of its own"""
    E = errty(p)
    import listing
    b = listing.display_of(p, ERR)
    seen = {}
    for i, vr in enumerate(p.types[E]['v']):
        ip = listing.interp(c, p, b, ERR)
        st = State()
        use(p)
        root = ('T', mk('sym', uniq('errd')), i, 'e')
        st.mem[root] = mk('agg', E, i, (), ty=E)
        args = [mk('ref', root, ())] + [ip.fresh_sym('f%d#%d.%d' % (j, ip.serial, i), b['locals'][j + 1]) for j in range(1, b['argc'])]
        args, res = run_any(ip, b, args, st)
        c.account(ip)
        txt = None
        for s, v in res:
            got = listing.flat(ip, s, chain(s.ev))
            if listing.complete(s, v):
                txt = got[0][1] if len(got) == 1 and got[0][0] == 'text' else None if got else b''
        if txt is None:
            c.ob(None, 'every kind of error has a text of its own', loc(b), vr['n'])
            continue
        c.ob(txt != b'' and txt not in seen, 'every kind of error has a text of its own', loc(b), '%s: %r%s' % (vr['n'], txt.decode('latin1'), ', like ' + seen[txt] if txt in seen else ''))
        seen.setdefault(txt, vr['n'])


# ---- users -------------------------------------------------------------------------------------
def users(c, p):
    """functions that decode whole messages: what they report is what the decoder or the record said"""
    for b in p.d['bodies']:
        if not b.get('body') or b.get('crate') != 'uwuhi' or not b.get('local') or '{closure' in b['path'] or b['id'] not in p.roots:
            continue
        q = npath(b['path'])
        if q in ('uwuhi::resolver::decode_answer', 'uwuhi::service::discovery::decode_answer', 'uwuhi::service::advertising::Advertiser::handle_packet'):
            c.group(loc(b), user, c, p, b)


def user(c, p, b):
    from services import svc_interp
    ip = svc_interp(c, p)
    decoder_summary(ip, p, True)
    args, res = run_any(ip, b)
    c.account(ip)
    n = 0
    for s, v in res:
        if not (v.op == 'agg' and v.a[1] == 1):
            continue
        e = v.a[2][0]
        n += 1
        sc = Soft(c, ip, s, e)
        k = kind_name(p, e)
        var = variant(p, e)
        if k is not None:
            sc.ob(k not in RETRY, 'a decoding error is no timeout', loc(b), 'reports %s' % k)
        elif var is not None:
            sc.ob(True if var in ('Eof',) else None, 'an error is passed on as it is', loc(b), 'reports %s' % var)
        else:
            sc.ob(True if passed(ip, s, e) else None, 'an error is passed on as it is', loc(b), show(e)[:80])
    c.ob(True, 'analysed', loc(b), '%d errors' % n)


def c38(c):
    """Every error outcome of the reader of names is compared with what is wrong at the cursor; every other reading function may only report the end of
    the data or pass on the error of the reader of names; the conversion into I/O errors is evaluated for every kind; printing too."""
    p = c.prog('uwuhi')
    for b in [b for b in find_name_reader(p) if b['id'] in p.roots]:
        c.group(loc(b), name_errors, c, p, b)
    c.group(DEC, readers, c, p)
    c.group(ERR, conversion, c, p)
    c.group(ERR + ' printed', displays, c, p)
    c.group('users', users, c, p)


PROPS = {'C38': c38}
