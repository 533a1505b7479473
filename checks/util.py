"""Helpers shared by the checks: reading sequences out of loops, scanning bodies, entry points."""
from base import *


def events(st):
    out = []
    e = st.ev
    while e is not None:
        out.append(e)
        e = e.a[0]
    out.reverse()
    return out


def find_path(v, target, d=8):
    """projections leading from v to the sub-value target"""
    if v is target:
        return ()
    if d == 0 or not isinstance(v, T):
        return None
    if v.op == 'agg':
        for i, x in enumerate(v.a[2]):
            r = find_path(x, target, d - 1)
            if r is not None:
                return (('f', v.a[1], i, x.ty),) + r
    elif v.op in ('vec', 'box'):
        r = find_path(v.a[0], target, d - 1)
        if r is not None:
            return (('v',),) + r
    elif v.op == 'seq' and len(v.a[0]) == 1 and v.a[0][0][0] == 's' and v.a[0][0][1] is target:
        return ()
    elif v.op == 'iter':
        for i, x in enumerate(v.a):
            if isinstance(x, T):
                r = find_path(x, target, d - 1)
                if r is not None:
                    return (('t', i),) + r
    return None


def walk(ip, st, v, path):
    for e in path:
        if e[0] == 't':
            if v.op != 'iter' or len(v.a) <= e[1]:
                raise Unknown('an iterator')
            v = v.a[e[1]]
        else:
            v = ip.proj(st, v, e)
    return v


def parts_of(ip, st, ct):
    """content as a list of ('one', v) / ('span', content, off, len)"""
    if ct.op == 'seq':
        return [('one', p[1]) if p[0] == 'o' else ('span',) + p[1:] for p in ct.a[0]]
    return [('span', ct, I(0), ip.length(ct))]


class Each:
    """the elements a loop appends, in order: recs is [(LoopRec, appended value or None)]; pre the parts before the loop"""
    def __init__(self, marker, recs, term, head_len):
        self.marker, self.recs, self.term, self.head_len = marker, recs, term, head_len


def sequence(ip, st, ct, depth=4):
    """-> list of ('one', v) | ('span', content, off, len) | ('each', Each), or Unknown"""
    out = []
    for p in parts_of(ip, st, ct):
        if p[0] == 'one' or depth == 0:
            out.append(p)
            continue
        t = p[1]
        if t.op == 'collected' or t.op == 'phi':
            if not (p[2] is I(0) and st.entails_eq(p[3], ip.length(t))):
                out.append(p)
                continue
            r = loop_seq(ip, st, t, depth)
            if r is not None:
                out += r
                continue
        out.append(p)
    return out


def loop_seq(ip, st, t, depth):
    if t.op == 'collected':
        mkr = t.a[0]
        while mkr is not None and mkr.op != 'loop':
            mkr = mkr.a[0]
        if mkr is None:
            return None
        # a loop within it (of a filter, say) may have been the last to end
        own = lambda x: any(e.op == 'ev' and e.a[1][0] == 'item' for r in ip.loops.get(x) or [] for e in r.evs)
        up = mkr
        while up is not None and not (up.op == 'loop' and own(up)):
            up = up.a[0] if up.op in ('loop', 'ev') else None
        mkr = up or mkr
        recs = ip.loops.get(mkr) or []
        out = []
        for r in recs:
            its = [e for e in r.evs if e.op == 'ev' and e.a[1][0] == 'item']
            if len(its) > 1:
                return None
            out.append((r, its[0].a[1][1] if its else None))
        return [('each', Each(mkr, out, t, None))]
    # a phi: find the loop whose head holds it
    for e in reversed(events(st)):
        if e.op != 'loop':
            continue
        recs = ip.loops.get(e) or []
        for r in recs:
            for k, v in r.head.mem.items():
                path = find_path(v, t)
                if path is None:
                    continue
                init = [walk(ip, s0, s0.mem[k], path) for s0 in ip.loop_init.get(e, []) if k in s0.mem]
                if init and all(x is t for x in init):
                    # it only passes through this loop
                    continue
                return phi_loop(ip, st, e, recs, k, path, t, depth)
    return None


def phi_loop(ip, st, marker, recs, k, path, t, depth):
    out = []
    for r in recs:
        hv = walk(ip, r.head, r.head.mem[k], path) if k in r.head.mem else None
        bv = walk(ip, r.back, r.back.mem[k], path) if k in r.back.mem else None
        if hv is None or bv is None:
            return None
        if hv is bv:
            out.append((r, None))
            continue
        hp, bp = parts_of(ip, r.head, hv), parts_of(ip, r.back, bv)
        if len(bp) == len(hp) + 1 and same_parts(r.back, bp[:len(hp)], hp) and bp[-1][0] == 'one':
            out.append((r, bp[-1][1]))
        else:
            return None
    pre = None
    for s0 in ip.loop_init.get(marker, []):
        if k not in s0.mem:
            return None
        v0 = walk(ip, s0, s0.mem[k], path)
        ps = [x for x in parts_of(ip, s0, v0)]
        if pre is None:
            pre = ps
        elif pre != ps:
            return None
    return (pre or []) + [('each', Each(marker, out, t, ip.length(t)))]


def same_parts(st, a, b):
    for x, y in zip(a, b):
        if x[0] != y[0]:
            return False
        if x[0] == 'one':
            if x[1] is not y[1]:
                return False
        elif x[1] is not y[1] or not st.entails_eq(x[2], y[2]) or not st.entails_eq(x[3], y[3]):
            return False
    return True


# ---- scanning bodies ---------------------------------------------------------------------------
def walk_json(x, f):
    if isinstance(x, list):
        f(x)
        for y in x:
            walk_json(y, f)
    elif isinstance(x, dict):
        for y in x.values():
            walk_json(y, f)


def calls_of(b):
    """instance ids called from a body (direct calls and function values)"""
    out = set()

    def f(x):
        pass
    def g(x):
        if isinstance(x, dict):
            if isinstance(x.get('i'), int) and 'path' in x:
                out.add(x['i'])
            for y in x.values():
                g(y)
        elif isinstance(x, list):
            for y in x:
                g(y)
    g(b['body'])
    return out


def callers(p):
    r = getattr(p, '_callers', None)
    if r is None:
        r = p._callers = {}
        for b in p.d['bodies']:
            if b['body'] is None:
                continue
            for i in calls_of(b):
                r.setdefault(i, set()).add(b['id'])
    return r


def outward(p, bodies, module):
    """the functions from which code outside `module` can reach the given bodies: a body visible outside, else (transitively) its callers"""
    cl = callers(p)
    seen, out, work = set(), {}, list(bodies)
    byid = p.bodies
    while work:
        b = work.pop()
        if b['id'] in seen:
            continue
        seen.add(b['id'])
        vis = b.get('vis')
        if (b.get('trait') and b.get('item')) or (vis is not None and not (vis == module or vis.startswith(module + '::'))):
            out[b['id']] = b
            continue
        ups = [byid[i] for i in cl.get(b['id'], ()) if i in byid]
        if b.get('dk') == 'Closure' or not ups:
            par = re.sub(r'::\{closure#\d+\}$', '', b['path'])
            ups += [x for x in p.d['bodies'] if x['body'] is not None and x['path'] == par]
        if not ups:
            out[b['id']] = b
        work += ups
    return sorted(out.values(), key=lambda b: b['id'])


_sub = {}


def subterms(t):
    """every term inside a term"""
    r = _sub.get(t)
    if r is None:
        out = {t}
        work = list(t.a)
        while work:
            x = work.pop()
            if isinstance(x, T):
                if x not in out:
                    out.add(x)
                    q = _sub.get(x)
                    if q is not None:
                        out |= q
                    else:
                        work.extend(x.a)
            elif isinstance(x, tuple):
                work.extend(x)
        r = _sub[t] = frozenset(out)
    return r


def state_terms(s):
    out = set()
    for v in s.mem.values():
        out |= subterms(v)
    for f in s.facts:
        for a, _ in f[1]:
            out |= subterms(a)
    for k in s.eqc:
        if isinstance(k, T):
            out |= subterms(k)
    return out


def tainted(ip, s, *vals):
    """does the state rest on an operation the analyser knows nothing about, or on facts lost in a join?"""
    if ip.lost or lossy(ip, s.ev):
        return True
    if not ip.unk:
        return False
    seen = set()
    for v in vals:
        seen |= subterms(v)
    seen |= state_terms(s)
    for k in s.neq:
        if isinstance(k, T):
            seen |= subterms(k)
    return any(u in seen for u in ip.unk)


def lossy(ip, ev, d=8):
    """may events be missing before this one?"""
    if not ip.lossy:
        return False
    while ev is not None:
        if ev in ip.lossy:
            return True
        if ev.op == 'loop' and d and any(lossy_step(ip, ev, r, d - 1) for r in ip.loops.get(ev) or []):
            return True
        ev = ev.a[0]
    return False


def lossy_step(ip, m, r, d):
    e = r.back.ev
    while e is not None and e is not m:
        if e in ip.lossy or e.op == 'loop' and d and any(lossy_step(ip, e, x, d - 1) for x in ip.loops.get(e) or []):
            return True
        e = e.a[0]
    return False


class Soft:
    """obligations about one state: what rests on something unknown is not reported as a violation"""
    def __init__(self, c, ip, s, *vals):
        self.c, self.ip, self.s, self.vals = c, ip, s, vals

    def ob(self, ok, *a):
        if ok is False and tainted(self.ip, self.s, *self.vals):
            ok = None
        return self.c.ob(ok, *a)


_triv = {}


def dep_terms(s):
    """terms a state depends on: memory, known values, and the facts that do not hold of themselves"""
    out = set()
    for v in s.mem.values():
        out |= subterms(v)
    for f in s.facts:
        t = _triv.get(f)
        if t is None:
            t = _triv[f] = State().entails(mklin(f[0], dict(f[1])))
        if not t:
            for a, _ in f[1]:
                out |= subterms(a)
    for k in s.eqc:
        if isinstance(k, T):
            out |= subterms(k)
    return out


def depends_on(s, v, t):
    """does the state, or the value v in it, really depend on the term t (facts implied by the rest aside)?"""
    if t in subterms(v) or any(t in subterms(x) for x in s.mem.values()) or any(isinstance(k, T) and t in subterms(k) for k in s.eqc):
        return True
    mine = [f for f in s.facts if any(t in subterms(a) for a, _ in f[1])]
    r = s.copy()
    r.facts = frozenset(f for f in s.facts if f not in mine)
    return any(not r.entails(mklin(f[0], dict(f[1]))) for f in mine)
