"""The encoder as the services see it: an abstract object whose operations are events (its own contract is C05, C06, C07, C11)."""
from base import *
from util import *
import wire
from wire import PK

ENC = PK + 'encoder::'
ME = ENC + 'MessageEncoder'
OPS = {'question': 'Question', 'add_answer': 'Answer', 'add_authority': 'Authority', 'add_additional': 'Additional'}


def encoder_summary(ip, p):
    """replaces every public operation of MessageEncoder by its contract"""
    for b in p.d['bodies']:
        n = npath(b['path'])
        if not n.startswith(ME + '::') or '{closure' in b['path']:
            continue
        item = n[len(ME) + 2:]
        f = {'new': new, 'set_header': set_header, 'finish': finish, 'answers': retype, 'authority': retype, 'additional': retype}.get(item) or (add if item in OPS else None)
        if f is not None:
            ip.summaries[b['id']] = lambda c, st, args, f=f, b=b, item=item: f(c, st, args, item)
    ip.drop_summaries[ME] = drop
    return ip


def base(v):
    return v if v.op == 'encv' else None


def target(c, st, a):
    ty = c.ip.p.types[a.ty]['e'] if a.ty is not None and c.ip.p.types[a.ty].get('e') is not None else None
    pl = c.ip.deref(st, a, ty)
    v = c.ip.load(st, pl.root, pl.path)
    if v.op != 'encv':
        raise Unknown('an encoder of unknown origin')
    return v


def new(c, st, args, item):
    if st.ghost.get(('enc', 'live')):
        raise Unknown('two encoders at once')
    e = mk('encv', models.fresh(c, st, 'enc'), args[0], c.dty, ty=c.dty)
    st.ghost[('enc', 'live')] = True
    for k in OPS:
        st.ghost[('enc', k)] = False
    c.ip.emit(st, 'enc.new', args[0])
    root, path, off, n = c.ip.slice_of(st, args[0], None)
    if not st.add_ge0(addc(n, -12)):
        return []
    return [(st, e)]


def set_header(c, st, args, item):
    target(c, st, args[0])
    c.ip.emit(st, 'enc.header', args[1])
    return [(st, models.unit(c))]


def retype(c, st, args, item):
    v = args[0]
    if v.op != 'encv':
        raise Unknown('an encoder of unknown origin')
    return [(st, mk('encv', v.a[0], v.a[1], c.dty, ty=c.dty))]


def add(c, st, args, item):
    target(c, st, args[0])
    st.ghost[('enc', item)] = True
    c.ip.emit(st, 'enc.' + item, args[1], named(c.ip, st, args[1]))
    return [(st, models.unit(c))]


def named(ip, st, v):
    """the domain name an entry refers to, as it is when the entry is encoded"""
    if v.op == 'agg':
        fs = ip.p.fields(v.ty, v.a[1]) if v.ty is not None else []
        for i, x in enumerate(v.a[2]):
            xt = x.ty if x.ty is not None else fs[i] if i < len(fs) else None
            t = ip.p.types[xt] if xt is not None else None
            if t is not None and t['k'] == 'ref' and ip.p.types[t['e']].get('path') == 'uwuhi::name::DomainName':
                pl = ip.deref(st, x, t['e'])
                return ip.load(st, pl.root, pl.path)
    return None


def written(ip, st, sl, n):
    root, path, off, ln = ip.slice_of(st, sl, None)
    old = ip.load(st, root, path)
    msg = mk('encoded', st.ev)
    ip.store(st, root, path, ip.overwrite(old, off, n, msg, I(0)) if hasattr(ip, 'overwrite') else mk('wr', old, off, n, msg, I(0), ty=old.ty))


def finish(c, st, args, item):
    v = args[0]
    if v.op != 'encv':
        raise Unknown('an encoder of unknown origin')
    ip = c.ip
    st.ghost[('enc', 'live')] = False
    ln = ip.slice_of(st, v.a[1], None)[3]
    res = []
    s = st.copy()
    ety = ip.p.fields(c.dty, 1)[0]
    var = [i for i, x in enumerate(ip.p.types[ety]['v']) if x['n'] == 'Truncated'] if ip.p.types[ety]['k'] == 'enum' else []
    er = mk('agg', ety, var[0], (), ty=ety) if var else models.fresh(c, s, 'enc.err', ety)
    ip.emit(s, 'enc.finish', 'err', ln)
    written(ip, s, v.a[1], ln)
    res.append((s, models.err(c.dty, er)))
    n = models.fresh(c, st, 'enc.len', ip.p.strid['usize'], rng=INTR['usize'])
    if st.add_ge0(sub(ln, n)) and st.add_ge0(addc(n, -12)):
        ip.emit(st, 'enc.finish', 'ok', n)
        written(ip, st, v.a[1], n)
        res.append((st, models.ok(c.dty, n)))
    return res


def drop(ip, st, pl, ty, site):
    v = ip.read(st, pl)
    if v.op != 'encv':
        return [st]
    st.ghost[('enc', 'live')] = False
    ip.emit(st, 'enc.drop')
    written(ip, st, v.a[1], ip.slice_of(st, v.a[1], None)[3])
    return [st]


# ---- the decoder ------------------------------------------------------------------------------
MD = PK + 'decoder::MessageDecoder'


def decoder_summary(ip, p, iters=False):
    """MessageDecoder::next yields nothing, an error or an arbitrary entry of its section (C10, C11, C12 say which)"""
    for b in p.d['bodies']:
        if b['body'] and iters and re.match(r'<uwuhi::packet::decoder::\w+Iter as std::iter::Iterator>::next$', npath(b['path'])):
            m = re.search(r'section::(Answer|Authority|Additional)\b', b['name'])
            sec = m.group(1) if m else 'Question' if 'QuestionIter' in b['path'] else None
            if sec:
                ip.summaries[b['id']] = lambda c, st, args, sec=sec: next_entry(c, st, args, sec)
        if b['body'] is not None and b['body'] and '{closure' not in b['path'] and b.get('item') == 'next' and not b.get('trait') and npath(b['path']) == MD + '::next':
            sec = [s for s in ('Question', 'Answer', 'Authority', 'Additional') if ('section::' + s) in b['path'] or ('section::' + s) in (b.get('self') or '')]
            ip.summaries[b['id']] = lambda c, st, args, sec=sec[0] if sec else None: next_entry(c, st, args, sec)
    return ip


def next_entry(c, st, args, sec):
    ip = c.ip
    res = []
    e = st.copy()
    ip.emit(e, 'dec.end', sec)
    res.append((e, models.none(c.dty)))
    rty = ip.p.fields(c.dty, 1)[0]
    e = st.copy()
    er = models.fresh(c, e, 'dec.err', ip.p.fields(rty, 1)[0])
    ip.emit(e, 'dec.err', sec, er)
    res.append((e, models.some(c.dty, models.err(rty, er))))
    v = models.fresh(c, st, 'dec.entry', ip.p.fields(rty, 0)[0])
    ip.emit(st, 'dec.entry', sec, v)
    res.append((st, models.some(c.dty, models.ok(rty, v))))
    return res


# ---- entry points, blocking or async ----------------------------------------------------------
def run_any(ip, b, args=None, st=None, name=None):
    """run a function; an async one to completion. -> (args, [(state, value)])"""
    p = ip.p
    args, res = ip.entry(b, args, st, name)
    out = []
    for s, v in res:
        if v.op == 'agg' and v.ty is not None and p.tk(v.ty) == 'coroutine':
            out += models.run_coroutine(ip, s, None, p.bodies[p.types[v.ty]['i']], v, None, None)
        else:
            out.append((s, v))
    return args, out


def chain(ev):
    """events before and including ev, oldest first, loops as their markers"""
    out = []
    while ev is not None:
        out.append(ev)
        ev = ev.a[0]
    out.reverse()
    return out


def kind(e):
    return e.a[1][0] if e.op == 'ev' else 'loop'


def last(evs, *kinds):
    for e in reversed(evs):
        if e.op == 'ev' and e.a[1][0] in kinds:
            return e.a[1]
    return None
