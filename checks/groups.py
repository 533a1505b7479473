"""C35: the sockets of listening services and the groups that multicast clients ask"""
from base import *
from util import *
import services, discovery
from absenc import run_any, chain, kind
from services import LISTEN, listen as _l
from discovery import RES, DIS, octets, svc_interp, is_err, family, servers_are, addr_is

PORT = 5353
GROUP = {0: [224, 0, 0, 251], 1: [0xff, 2] + [0] * 13 + [0xfb]}

MADE = [('uwuhi', 'uwuhi::service::advertising::Advertiser::create_socket'), ('uwuhi', 'uwuhi::tap::SyncTap::new'), ('uwuhi_async', 'uwuhi_async::service::advertising::AsyncAdvertiser::new')]


def base(x, d=6):
    """the system socket behind a wrapper"""
    while d and x.op in ('udpsock', 'asyncsock') or x.op == 'agg' and len(x.a[2]) == 1:
        x = x.a[0] if x.op != 'agg' else x.a[2][0]
        d -= 1
    return x


def ints(s, xs):
    out = []
    for x in xs or [None]:
        x = s.norm(x) if x is not None else None
        if x is None or x.op != 'int':
            return None
        out.append(x.a[0])
    return out


def ipbytes(ip, s, v):
    """(family, bytes) of an address; bytes is None if it is not known"""
    while v.op == 'agg' and v.ty is not None and ip.p.ts(v.ty) == 'std::net::IpAddr':
        v = v.a[2][0]
    name = ip.p.ts(v.ty) if v.ty is not None else ''
    k = 0 if name.endswith('Ipv4Addr') else 1 if name.endswith('Ipv6Addr') else None
    return k, ints(s, octets(ip, s, v, 16 if k else 4)) if k is not None else None


def sockaddr(ip, s, v):
    """(family, bytes, port) of a socket address"""
    p = ip.p
    while v.op == 'sockaddr':
        v = v.a[0]
    if v.op == 'agg' and v.ty is not None and p.ts(v.ty) == 'std::net::SocketAddr':
        v = v.a[2][0]
    if v.op == 'agg' and v.ty is not None and p.ts(v.ty).startswith('std::net::SocketAddrV'):
        k, b = ipbytes(ip, s, v.a[2][0])
        port = ints(s, [v.a[2][1]])
        return k, b, port[0] if port else None
    return None, None, None


def setup(c, ip, s, evs, sock, where, wait=True):
    """what was done to a socket: it must be bound to the port, shared, and in the group"""
    b = base(sock)
    c = Soft(c, ip, s, sock)
    on = []
    for e in evs:
        if e.op != 'ev':
            continue
        x = e.a[1]
        if x[0].startswith('opt.') and base(x[2]) is b and 'ok' in x:
            on.append((x[0][4:], x[3:x.index('ok')]))
        elif x[0] == 'sock.bind' and 'ok' in x and x[x.index('ok') + 1] is b:
            on.append(('bind', x[1:x.index('ok')]))
        elif x[0] not in ('item', 'push') and not x[0].startswith('opt.') and any(isinstance(y, T) and base(y) is b for y in x[1:]) and x[0] not in ('sock.new', 'async.new', 'recv', 'send', 'fut', 'race'):
            on.append(('?', ()))
    odd = any(n == '?' for n, _ in on)
    binds = [(i, a) for i, (n, a) in enumerate(on) if n == 'bind']
    rule = 'a service listens on port 5353 of every address'
    if not binds:
        c.ob(None if odd else False, rule, where, 'the socket is not bound')
        return
    i, a = binds[0]
    k, by, port = sockaddr(ip, s, a[0])
    c.ob(None if port is None or by is None else port == PORT and (not any(by) or by == GROUP[k]), rule, where, 'bound to %s port %s' % (by, port))
    reuse = [(j, ints(s, [x[0]])) for j, (n, x) in enumerate(on) if n == 'set_reuse_address' and j < i]
    rule = 'the port is shared with other programs'
    if not reuse:
        c.ob(None if odd or any(n == 'set_reuse_port' for n, _ in on) else False, rule, where, 'address reuse is not enabled before the socket is bound')
    else:
        v = reuse[-1][1]
        c.ob(None if v is None else v == [1], rule, where, 'address reuse is disabled')
    rule = 'a service is a member of the mDNS group'
    joins = [x for n, x in on if n.startswith('join_multicast')]
    gr = [(ipbytes(ip, s, x[0])) for x in joins]
    if any(by is None for _, by in gr):
        c.ob(None, rule, where, 'group not known')
    else:
        good = [x for x, (kk, by) in zip(joins, gr) if kk is not None and by == GROUP[kk] and kk == k]
        c.ob(None if odd and not good else bool(good), rule, where, 'joins %s' % [by for _, by in gr])
        for x in good:
            _, ifc = ipbytes(ip, s, x[1]) if x[1].ty is not None and 'Ipv' in ip.p.ts(x[1].ty) else (None, ints(s, [x[1]]))
            c.ob(None if ifc is None else not any(ifc), 'the group is joined on the default interface', where, 'joined on %s' % ifc)
    left = [x for n, x in on if n.startswith('leave_multicast')]
    if left:
        c.ob(False if any(ipbytes(ip, s, x[0])[1] in GROUP.values() for x in left) else None, rule, where, 'leaves the group')
    rule = 'an idle service goes on waiting'
    for n, x in on:
        if n == 'set_read_timeout':
            v = x[0]
            c.ob(True if v.op == 'agg' and v.a[1] == 0 else False if v.op == 'agg' and v.a[1] == 1 else None, rule, where, 'has a read timeout')
        if n == 'set_nonblocking' and wait:
            v = ints(s, [x[0]])
            c.ob(None if v is None else v == [0], rule, where, 'does not wait for packets')
        if n == 'connect':
            c.ob(False, 'packets of everyone are received', where, 'the socket is connected to one address')
    return True


def c35_made(c, crate, path):
    p = c.prog(crate)
    ip = svc_interp(c, p)
    b = fn(p, path)
    args, res = run_any(ip, b)
    c.account(ip)
    n = 0
    for s, v in res:
        if is_err(v):
            bad = not any('err' in e.a[1] for e in chain(s.ev) if e.op == 'ev')
            Soft(c, ip, s).ob(not bad, 'a service can be created', loc(b), 'fails without a socket failing')
            continue
        if v.op != 'agg' or v.a[1] != 0:
            c.ob(None, 'a service can be created', loc(b), show(v)[:80])
            continue
        socks = [t for t in subterms(v.a[2][0]) | {v.a[2][0]} if t.op == 'ret' and any(e.op == 'ev' and e.a[1][0] in ('sock.new', 'sock.bind') and t in e.a[1] for e in chain(s.ev))]
        if len(socks) != 1:
            Soft(c, ip, s).ob(None, 'a service can be created', loc(b), '%d sockets' % len(socks))
            continue
        n += 1
        setup(c, ip, s, chain(s.ev), socks[0], loc(b), 'async' not in crate)
    c.ob(n > 0, 'a service can be created', loc(b), 'never succeeds')


def c35_listen(c, path, item, crate):
    """a listening function that makes its own socket"""
    key = (id(c), path)
    L = services._listen.get(key)
    if L is None:
        L = services._listen[key] = services.Listen(c, crate, path, item)
    use(L.p)
    for s, v in L.res:
        evs = chain(s.ev)
        rs = [e.a[1] for e in evs if kind(e) == 'recv']
        made = [e.a[1] for e in evs if e.op == 'ev' and e.a[1][0] in ('sock.new', 'sock.bind')]
        for x in rs[:1]:
            if any(base(x[1]) in m for m in made):
                setup(c, L.ip, s, evs, x[1], L.where)


def c35_client(c, crate, path, k, disc):
    p = c.prog(crate)
    ip = svc_interp(c, p, unroll=6)
    b = fn(p, path)
    args, res = run_any(ip, b)
    c.account(ip)
    where = loc(b)
    n = 0
    for s, v in res:
        cs = Soft(c, ip, s)
        if v.op == 'agg' and v.a[1] == 0 and ip.p.types[v.ty].get('path', '').endswith('Poll'):
            v = v.a[2][0]
        if is_err(v):
            cs.ob(any('err' in e.a[1] for e in chain(s.ev) if e.op == 'ev'), 'a multicast client can be created', where, 'fails without a socket failing')
            continue
        if v.op != 'agg' or v.a[1] != 0:
            c.ob(None, 'a multicast client can be created', where, show(v)[:80])
            continue
        n += 1
        made = v.a[2][0]
        addrs = [sockaddr(ip, s, t) for t in addresses(p, made)]
        full = [a for a in addrs if None not in a]
        rule = 'a multicast client asks the mDNS group'
        if len(full) != len(addrs) or not addrs:
            cs.ob(None, rule, where, '%d addresses' % len(addrs))
        else:
            cs.ob(len(full) == 1 and full[0] == (k, GROUP[k], PORT), rule, where, 'asks %s' % (full,))
        if disc:
            rule = 'a multicast discoverer browses local'
            D = p.strid.get('uwuhi::name::DomainName')
            ds = [t for t in values(p, made) if t.ty is not None and p.types[t.ty].get('path') == 'uwuhi::name::DomainName']
            if len(ds) != 1:
                cs.ob(None, rule, where, '%d domains' % len(ds))
            else:
                labels_are(cs, ip, s, ds[0], rule, where)
    c.ob(n > 0, 'a multicast client can be created', where, 'never succeeds')


def values(p, v):
    """the values a value is made of, lists included"""
    out = [v]
    while out:
        x = out.pop()
        yield x
        if x.op == 'agg':
            out += x.a[2]
        elif x.op in ('vec', 'box'):
            out += [y for y in x.a if isinstance(y, T)]
        elif x.op == 'seq':
            out += [y[1] for y in x.a[0] if len(y) > 1 and isinstance(y[1], T)] if x.a and isinstance(x.a[0], tuple) else []


def addresses(p, v):
    return [t for t in values(p, v) if t.op == 'agg' and t.ty is not None and p.types[t.ty].get('path') == 'std::net::SocketAddr']


def labels_are(c, ip, s, d, rule, where, want=(b'local',)):
    import names
    try:
        v = [x for x in values(ip.p, d) if x.op in ('vec',)][0]
        ps = parts_of(ip, s, v.a[0])
    except Exception:
        c.ob(None, rule, where, show(d)[:80])
        return
    got = []
    for y in ps:
        if y[0] != 'one':
            c.ob(None, rule, where, show(d)[:80])
            return
        bs = [x for x in values(ip.p, y[1]) if x.op == 'box']
        q = ints(s, [z[1] for z in parts_of(ip, s, bs[0].a[0])]) if len(bs) == 1 and all(z[0] == 'one' for z in parts_of(ip, s, bs[0].a[0])) else None
        if q is None:
            c.ob(None, rule, where, show(d)[:80])
            return
        got.append(bytes(q))
    c.ob(got == list(want), rule, where, 'browses %s' % got)


def c35(c):
    """Every function that makes a listening socket is run with all its outcomes: on a success the socket's history holds a bind to port 5353 of the unspecified address, address reuse
    before it, and the group's membership, and nothing that limits its waiting. The multicast constructors' results are searched for socket addresses: the group's
    address and port, and nothing else; discoverers keep the domain local."""
    for crate, path in MADE:
        c.group(path, c35_made, c, crate, path)
    for path, item, crate in LISTEN:
        c.group(path, c35_listen, c, path, item, crate)
    for crate in ('uwuhi', 'uwuhi_async'):
        c.group(RES[crate], c35_client, c, crate, RES[crate] + '::new_multicast_v4', 0, False)
        c.group(RES[crate], c35_client, c, crate, RES[crate] + '::new_multicast_v6', 1, False)
        c.group(DIS[crate], c35_client, c, crate, DIS[crate] + '::new_multicast_v4', 0, True)


PROPS = {'C35': c35}
