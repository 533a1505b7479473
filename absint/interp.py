"""Abstract interpreter over the extracted MIR (trace-partitioned, with loop fixpoints)."""
import json, sys, collections
from terms import *
from state import State, con, atom_facts_hook, feasible
from paths import norm as normpath

sys.setrecursionlimit(20000)

INTR = {'u8': (0, 255), 'u16': (0, 65535), 'u32': (0, (1 << 32) - 1), 'u64': (0, USIZE), 'usize': (0, USIZE), 'u128': (0, (1 << 128) - 1),
        'i8': (-128, 127), 'i16': (-32768, 32767), 'i32': (-(1 << 31), (1 << 31) - 1), 'i64': (-(1 << 63), ISIZE), 'isize': (-(1 << 63), ISIZE),
        'i128': (-(1 << 127), (1 << 127) - 1), 'bool': (0, 1), 'char': (0, 0x10ffff)}
WID = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'usize': 64, 'u128': 128, 'i8': 8, 'i16': 16, 'i32': 32, 'i64': 64, 'isize': 64, 'i128': 128, 'bool': 1, 'char': 32}


class Program:
    def __init__(self, path, canon=None):
        raw = open(path).read()
        self.d = json.loads(raw)
        if canon:
            new = canon(raw, self.d)
            if new is not raw:
                self.d = json.loads(new)
        del raw
        self.types = self.d['types']
        self.bodies = {b['id']: b for b in self.d['bodies']}
        self.bypath = collections.defaultdict(list)
        self.roots = set(self.d['roots'])
        for b in self.d['bodies']:
            if b['body'] is not None:
                self.bypath[b['path']].append(b)
        self.strid = {}
        for i, t in enumerate(self.types):
            self.strid.setdefault(t['s'], i)
        self._cfg = {}
        self._dropty = {}
        for b in self.d['bodies']:
            if b['body'] is not None:
                self.box_temps(b)

    def tk(self, ty):
        return self.types[ty]['k']

    def ts(self, ty):
        return self.types[ty]['s']

    def irange(self, ty):
        if ty is None:
            return None
        return INTR.get(self.types[ty]['s']) if self.types[ty]['k'] in ('int', 'uint', 'bool', 'char') else None

    def fields(self, ty, var=None):
        t = self.types[ty]
        if t['k'] in ('struct', 'enum', 'union'):
            return [f['t'] for f in t['v'][var or 0]['f']]
        if t['k'] in ('tuple', 'closure', 'coroutine'):
            return t['f']
        return None

    def elem_ty(self, ty):
        return self.types[ty].get('e')

    def box_temps(self, b):
        """MIR copies a Box into a temporary to dereference it; address the Box itself instead"""
        for bb in b['body']:
            alias = {}
            for s in bb[0]:
                if s[0] != '=':
                    continue
                lhs, r = s[1], s[2]
                if r[0] == 'cast' and r[1].startswith('BoxDeref') and r[2][0] in ('copy', 'move') and r[2][1][0] in alias:
                    base = alias[r[2][1][0]]
                    r[2] = ['copy', [base[0], list(base[1]) + list(r[2][1][1])]]
                alias = {t: P for t, P in alias.items() if P[0] != lhs[0] and t != lhs[0]}
                if not lhs[1] and r[0] == 'use' and r[1][0] == 'copy' and r[1][1][1] and self.types[b['locals'][lhs[0]]].get('path') == 'std::boxed::Box':
                    alias[lhs[0]] = r[1][1]

    def needs_local_drop(self, ty, depth=0):
        """does dropping a value of this type run a Drop impl of the analysed workspace?"""
        if ty in self._dropty:
            return self._dropty[ty]
        self._dropty[ty] = False
        t = self.types[ty]
        r = False
        if t['k'] in ('struct', 'enum'):
            if t.get('drop') and t['crate'].startswith('uwuhi'):
                r = True
            if not r:
                for v in t['v']:
                    for f in v['f']:
                        if self.needs_local_drop(f['t']):
                            r = True
            if not r:
                for a in t['args']:
                    if self.needs_local_drop(a):
                        r = True
        elif t['k'] in ('tuple', 'closure', 'coroutine'):
            r = any([self.needs_local_drop(f) for f in t['f']])
        elif t['k'] in ('array', 'slice'):
            r = self.needs_local_drop(t['e'])
        self._dropty[ty] = r
        return r

    # ---- control-flow structure
    def cfg(self, b):
        c = self._cfg.get(b['id'])
        if c is None:
            c = self._cfg[b['id']] = Cfg(b)
        return c


def succs(term):
    k = term[0]
    if k == 'goto':
        return [term[1]]
    if k == 'switch':
        return [t[1] for t in term[2]] + [term[3]]
    if k == 'drop':
        return [term[2]]
    if k == 'call':
        return [term[4]] if term[4] is not None else []
    if k == 'assert':
        return [term[4]]
    if k == 'yield':
        return [term[1]]
    return []


class Cfg:
    def __init__(self, b):
        self.b = b
        bbs = b['body']
        self.succ = [list(dict.fromkeys(succs(x[1]))) for x in bbs]
        self.npred = [0] * len(bbs)
        seen = set()
        order = []
        st = [(0, iter(self.succ[0]))]
        seen.add(0)
        while st:
            n, it = st[-1]
            for m in it:
                if m not in seen:
                    seen.add(m)
                    st.append((m, iter(self.succ[m])))
                    break
            else:
                order.append(n)
                st.pop()
        self.rpo = {n: i for i, n in enumerate(reversed(order))}
        self.blocks = frozenset(seen)
        for n in seen:
            for m in self.succ[n]:
                self.npred[m] += 1
        self.live = liveness(b, self)
        self._comp = {}

    def comps(self, blocks, head):
        """SCCs in topological order of the subgraph without edges into head"""
        key = (blocks, head)
        r = self._comp.get(key)
        if r is not None:
            return r
        idx, low, onst, stack, out = {}, {}, set(), [], []
        cnt = [0]

        def sc(n):
            return [m for m in self.succ[n] if m in blocks and m != head]

        def strong(v):
            work = [(v, iter(sc(v)))]
            idx[v] = low[v] = cnt[0]
            cnt[0] += 1
            stack.append(v)
            onst.add(v)
            while work:
                x, it = work[-1]
                adv = False
                for w in it:
                    if w not in idx:
                        idx[w] = low[w] = cnt[0]
                        cnt[0] += 1
                        stack.append(w)
                        onst.add(w)
                        work.append((w, iter(sc(w))))
                        adv = True
                        break
                    elif w in onst:
                        low[x] = min(low[x], idx[w])
                if adv:
                    continue
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[x])
                if low[x] == idx[x]:
                    comp = []
                    while True:
                        w = stack.pop()
                        onst.discard(w)
                        comp.append(w)
                        if w == x:
                            break
                    out.append(comp)
        for n in sorted(blocks, key=lambda n: self.rpo.get(n, 1 << 30)):
            if n not in idx:
                strong(n)
        out.reverse()
        res = []
        for c in out:
            c = sorted(c, key=lambda n: self.rpo[n])
            nontriv = len(c) > 1 or c[0] in sc(c[0])
            res.append((frozenset(c), c[0], nontriv))
        self._comp[key] = res
        return res


def _places(x, uses, defs, addr):
    pass


def liveness(b, cfg):
    """locals live at block entry; locals whose address is taken are live until StorageDead"""
    bbs = b['body']
    addr = set()
    gen, kill = {}, {}

    def place_uses(p, out):
        out.add(p[0])
        for e in p[1]:
            if e[0] == 'i':
                out.add(e[1])

    def op_uses(o, out):
        if o[0] in ('copy', 'move'):
            place_uses(o[1], out)

    def rv_uses(r, out):
        k = r[0]
        if k == 'use':
            op_uses(r[1], out)
        elif k == 'repeat':
            op_uses(r[1], out)
        elif k in ('ref', 'reborrow'):
            place_uses(r[2], out)
            if not any(e[0] == '*' for e in r[2][1]):
                addr.add(r[2][0])
        elif k == 'cast':
            op_uses(r[2], out)
            if 'BoxDeref' in r[1] and r[2][0] in ('copy', 'move'):
                addr.add(r[2][1][0])
        elif k == 'bin':
            op_uses(r[2], out)
            op_uses(r[3], out)
        elif k == 'un':
            op_uses(r[2], out)
        elif k == 'discr':
            place_uses(r[1], out)
        elif k == 'agg':
            for o in r[2]:
                op_uses(o, out)

    for n in cfg.blocks:
        sts, term = bbs[n][0], bbs[n][1]
        seq = []
        for s in sts:
            u, d = set(), set()
            if s[0] == '=':
                rv_uses(s[2], u)
                if s[1][1]:
                    place_uses(s[1], u)
                else:
                    d.add(s[1][0])
            elif s[0] == 'setd':
                place_uses(s[1], u)
            elif s[0] in ('live', 'dead'):
                d.add(s[1])
            elif s[0] == 'assume':
                op_uses(s[1], u)
            seq.append((u, d))
        u, d = set(), set()
        k = term[0]
        if k == 'switch':
            op_uses(term[1], u)
        elif k == 'drop':
            place_uses(term[1], u)
            addr.add(term[1][0])
        elif k == 'call':
            for o in term[2]:
                op_uses(o, u)
            if 'ptr' in term[1]:
                op_uses(term[1]['ptr'], u)
            if term[3][1]:
                place_uses(term[3], u)
            else:
                d.add(term[3][0])
        elif k == 'assert':
            op_uses(term[1], u)
            for m in term[3][1:]:
                if isinstance(m, list):
                    op_uses(m, u)
        elif k == 'return':
            u.add(0)
        elif k == 'yield':
            d.add(term[2][0])
        seq.append((u, d))
        g, kl = set(), set()
        for u, d in reversed(seq):
            g -= d
            kl |= d
            g |= u
            kl -= u
        gen[n], kill[n] = g, kl
    live = {n: set(gen[n]) for n in cfg.blocks}
    ch = True
    order = sorted(cfg.blocks, key=lambda n: -cfg.rpo[n])
    while ch:
        ch = False
        for n in order:
            o = set()
            for m in cfg.succ[n]:
                if m in live:
                    o |= live[m]
            new = gen[n] | (o - kill[n])
            if new != live[n]:
                live[n] = new
                ch = True
    return {n: frozenset(live[n] | addr) for n in live}


class Unsupported(Exception):
    pass


class Budget(Exception):
    pass


class Frame:
    __slots__ = ('uid', 'b', 'parent', 'site', 'depth')

    def __init__(self, uid, b, parent, site):
        self.uid, self.b, self.parent, self.site = uid, b, parent, site
        self.depth = parent.depth + 1 if parent else 0

    def stack(self):
        out = []
        f = self
        while f:
            out.append(f)
            f = f.parent
        return out


class Pl:
    """a resolved place"""
    __slots__ = ('root', 'path', 'win', 'ty')

    def __init__(self, root, path, win, ty):
        self.root, self.path, self.win, self.ty = root, path, win, ty


class Interp:
    MAXSTATES = 40
    count = 0

    def __init__(self, prog, models, opts=None):
        Interp.count += 1
        use(prog)
        self.serial = Interp.count
        self.p = prog
        self.models = models
        self.opts = opts or {}
        self.norecv = False
        self.endless = set()     # loops that do not end after a few iterations
        self.loops = {}          # marker -> list of iteration records
        self.loop_init = {}      # marker -> states entering the loop
        self.retained = {}       # content after retain -> (any item, state, outcomes of the predicate on it)
        self.loop_log = []       # (marker, records, entering states) of every loop analysed
        self.on_agg = {}         # type path -> callback(ip, state, frame, value) on every construction
        self.outs = None         # text that is printed: (state, piece, call)
        self.panics = []         # (kind, frame stack, span, state)
        self.unknown = collections.Counter()
        self.lossy = set()      # events of operations whose own events are not known
        self.unk = set()         # values nothing is known about because of an unmodelled operation
        self.lost = 0            # joins that may have lost facts although exactness was asked for
        self.notes = collections.Counter()
        self.called = set()      # instance ids executed
        self.sites = 0
        self.steps = 0
        self.max_steps = self.opts.get('max_steps', 400000)
        self.summaries = {}      # inst id -> model
        self.drop_summaries = {}
        self.struct_inv = {}     # type string -> function(term) -> [lin >= 0]
        self.loop_check = None   # callback(frame, head, headstate, backstates, records)
        self.ev_hook = None
        self.on_call = None
        self._ldef = {}
        self._fm = {}
        self.exact = self.opts.get('exact', False)
        self.MAXSTATES = self.opts.get('maxstates', self.MAXSTATES)
        self.compact = self.opts.get('compact', self.MAXSTATES)
        atom_facts_hook[0] = self.inv_facts
        self._invc = {}
        self.depth = 0
        self.trace = self.opts.get('trace')

    # ---- type-directed opaque values
    def opq(self, ty, op, *a):
        return mk(op, *a, ty=ty, rng=self.p.irange(ty) if ty is not None else None)

    def fresh_sym(self, name, ty):
        return self.opq(ty, 'sym', name)

    def inv_facts(self, st, a):
        """type invariants of opaque struct values, instantiated for atoms reached through them"""
        r = self._invc.get(a)
        if r is not None:
            return r
        r = []
        work = [a]
        seen = set()
        while work:
            t = work.pop()
            if not isinstance(t, T) or t in seen or t.op in ('int', 'phi_') or len(seen) > 12:
                continue
            seen.add(t)
            if t.ty is not None:
                f = self.struct_inv.get(self.p.ts(t.ty).split('<')[0])
                if f:
                    for x in f(self, t):
                        if x.op != 'int':
                            r.append(x)
            if t.op in ('fld', 'deref', 'len', 'cont', 'bits', 'discr') or (t.op == 'elem' and self.opts.get('inv_elem')):
                for y in t.a:
                    if isinstance(y, T):
                        work.append(y)
        self._invc[a] = r
        return r

    # ---- projections on values
    def proj(self, st, v, e):
        k = e[0]
        if k == 'f':
            _, var, i, ty = e
            if v.op == 'agg':
                if v.a[1] == (var or 0):
                    return v.a[2][i] if i < len(v.a[2]) else self.opq(ty, 'undef', v, i)
                return self.opq(ty, 'badvar', v, var, i)
            if v.op == 'ite3':
                pass
            return self.opq(ty, 'fld', v, var or 0, i)
        if k == 'i':
            return self.elem(st, v, e[1])
        if k == 'v':
            if v.op in ('vec', 'box'):
                return v.a[0]
            ct = self.content_ty(v.ty)
            return self.opq(ct, 'cont', v)
        raise Unsupported('proj ' + str(k))

    def content_ty(self, ty):
        """type of what a Vec/Box/String/... holds"""
        if ty is None:
            return None
        t = self.p.types[ty]
        if t['k'] == 'struct' and t['args']:
            a0 = t['args'][0]
            if t['path'] == 'std::boxed::Box':
                return a0
            if t['path'] == 'std::vec::Vec':
                return self.slice_ty(a0)
        if t['s'] == 'std::string::String':
            return self.p.strid.get('str')
        return None

    def slice_ty(self, e):
        return self.p.strid.get('[%s]' % self.p.ts(e))

    def elem_type(self, content):
        ty = content.ty
        if ty is None:
            return None
        t = self.p.types[ty]
        if t['k'] in ('slice', 'array'):
            return t['e']
        if t['k'] == 'str':
            return self.p.strid.get('u8')
        return None

    def length(self, c):
        op = c.op
        if op == 'seq':
            n = I(0)
            for p in c.a[0]:
                n = add(n, self.partlen(p))
            return n
        if op == 'rep':
            return c.a[1]
        if op in ('wr', 'upd', 'sorted'):
            return self.length(c.a[0])
        if c.ty is not None:
            t = self.p.types[c.ty]
            if t['k'] == 'array' and t['n'] is not None:
                return I(t['n'])
        return mk('len', c, rng=(0, ISIZE))

    def partlen(self, p):
        if p[0] == 'o':
            return I(1)
        if p[0] == 's':
            return p[3]
        return mk('starlen', p, rng=(0, ISIZE))

    def elem(self, st, c, idx):
        op = c.op
        if op == 'rep':
            return c.a[0]
        if op == 'seq':
            pos = I(0)
            for p in c.a[0]:
                d = st.norm(sub(idx, pos))
                if p[0] == 'o':
                    if d.op == 'int' and d.a[0] == 0:
                        return p[1]
                    if d.op != 'int':
                        if st.entails_eq(d, I(0)):
                            return p[1]
                        if not (st.entails(addc(d, -1)) or st.entails(addc(neg(d), -1))):
                            break
                    pos = addc(pos, 1)
                elif p[0] == 's':
                    if st.entails(d) and st.entails(addc(sub(p[3], d), -1)):
                        return self.elem(st, p[1], add(p[2], d))
                    if not st.entails(sub(d, p[3])) and not st.entails(addc(neg(d), -1)):
                        break
                    pos = add(pos, p[3])
                else:
                    break
        elif op == 'upd':
            d = st.norm(sub(idx, c.a[1]))
            if d.op == 'int' and d.a[0] == 0:
                return c.a[2]
            if d.op == 'int' or st.entails(addc(d, -1)) or st.entails(addc(neg(d), -1)):
                return self.elem(st, c.a[0], idx)
        elif op == 'wr':
            prev, off, ln, src, so = c.a
            d = st.norm(sub(idx, off))
            if st.entails(d) and st.entails(addc(sub(ln, d), -1)):
                return self.elem(st, src, add(so, d))
            if st.entails(addc(neg(d), -1)) or st.entails(sub(d, ln)):
                return self.elem(st, prev, idx)
        return self.opq(self.elem_type(c), 'elem', c, idx)

    def setproj(self, st, v, path, val, ty):
        if not path:
            return val
        e = path[0]
        if e[0] == 'f':
            _, var, i, fty = e
            if v is None or v.op != 'agg':
                fs = None
                if v is not None and v.ty is not None:
                    ty = v.ty
                if ty is not None:
                    fs = self.p.fields(ty, var or 0)
                if fs is None:
                    n = i + 1
                    fields = [mk('undef', j) for j in range(n)]
                elif v is None:
                    fields = [self.opq(f, 'undef', j, f) for j, f in enumerate(fs)]
                else:
                    fields = [self.opq(f, 'fld', v, var or 0, j) for j, f in enumerate(fs)]
                aty, avar = ty, var or 0
            else:
                aty, avar, fields = v.a[0], v.a[1], list(v.a[2])
                if avar != (var or 0):
                    fs = self.p.fields(aty, var or 0)
                    fields = [self.opq(f, 'undef', j, f) for j, f in enumerate(fs)]
                    avar = var or 0
            while len(fields) <= i:
                fields.append(mk('undef', len(fields)))
            fields = list(fields)
            fields[i] = self.setproj(st, fields[i], path[1:], val, fty)
            return mk('agg', aty, avar, tuple(fields), ty=aty)
        if e[0] == 'i':
            old = self.elem(st, v, e[1])
            nv = self.setproj(st, old, path[1:], val, self.elem_type(v))
            return self.upd(st, v, e[1], nv)
        if e[0] == 'v':
            old = self.proj(st, v, e)
            nv = self.setproj(st, old, path[1:], val, old.ty)
            return mk(v.op if v.op in ('vec', 'box') else ('box' if v.ty is not None and self.p.types[v.ty].get('path') == 'std::boxed::Box' else 'vec'), nv, ty=v.ty)
        raise Unsupported('setproj')

    def upd(self, st, c, idx, v):
        if c.op == 'seq' and idx.op == 'int' and all(p[0] == 'o' for p in c.a[0]) and 0 <= idx.a[0] < len(c.a[0]):
            ps = list(c.a[0])
            ps[idx.a[0]] = ('o', v)
            return mk('seq', tuple(ps), ty=c.ty)
        if c.op == 'upd' and c.a[1] is idx:
            c = c.a[0]
        return mk('upd', c, idx, v, ty=c.ty)

    # ---- memory
    def load(self, st, root, path):
        v = self.models['@map_load'](self, st, root) if root[0] == 'M' else st.mem.get(root)
        if v is None:
            v = self.default(st, root)
        for e in path:
            v = self.proj(st, v, e)
        return v

    def default(self, st, root):
        k = root[0]
        if k == 'S':
            t = root[1]
            pt = None
            if t.ty is not None and self.p.tk(t.ty) in ('ref', 'ptr'):
                pt = self.p.types[t.ty]['e']
            return self.opq(pt, 'deref', t)
        if k in ('C', 'K'):
            return root[1]
        if k == 'V':
            return self.opq(root[2], 'view', root[1])
        if k == 'L':
            return mk('uninit', root[1], root[2])
        raise Unsupported('default root')

    def store(self, st, root, path, val):
        if root[0] in ('C',):
            return
        if root[0] == 'M':
            self.models['@map_store'](self, st, root, path, val)
            return
        if not path:
            st.mem[root] = val
        else:
            v = st.mem.get(root)
            ty = None
            if v is None:
                if root[0] == 'L':
                    ty = self.local_ty(root)
                else:
                    v = self.default(st, root)
            st.mem[root] = self.setproj(st, v, path, val, ty)
        self.store_hook(st, root, path, val)

    def store_hook(self, st, root, path, val):
        if root[0] == 'V':
            self.models['@view_store'](self, st, root, path, val)

    def rename(self, s, m):
        """substitute terms everywhere in a state, in place"""
        memo = {}
        s.mem = {(_subst_root(k, m, memo)): subst(v, m, memo) for k, v in s.mem.items()}
        s.facts = frozenset(con(subst(mklin(f[0], dict(f[1])), m, memo)) for f in s.facts)
        s.neq = frozenset(subst(x, m, memo) for x in s.neq)
        s.eqc = {subst(k, m, memo): v for k, v in s.eqc.items()}
        s.kb = {subst(k, m, memo): v for k, v in s.kb.items()}
        s.ghost = {k: subst(v, m, memo) if isinstance(v, T) else v for k, v in s.ghost.items()}

    def local_ty(self, root):
        return self._ldef.get((root[1], root[2]))

    def read(self, st, pl):
        if pl.win is not None:
            c = self.load(st, pl.root, pl.path)
            off, n = pl.win
            if off.op == 'int' and off.a[0] == 0 and st.entails_eq(n, self.length(c)):
                return c
            return mk('seq', (('s', c, off, n),), ty=c.ty)
        return self.load(st, pl.root, pl.path)

    # ---- pointers
    def mkref(self, root, path):
        if root[0] == 'S' and not path:
            return root[1]
        return mk('ref', root, path)

    def deref(self, st, v, pty):
        """place a pointer value points to; pty: pointee type"""
        if v.op == 'ref':
            return Pl(v.a[0], v.a[1], None, pty)
        if v.op == 'slice':
            return Pl(v.a[0], v.a[1], (v.a[2], v.a[3]), pty)
        if v.op == 'strlit':
            pass
        root = ('S', v)
        if v.ty is None and pty is not None:
            pass
        if pty is not None and self.p.tk(pty) in ('slice', 'str'):
            c = self.load(st, root, ())
            if c.ty is None:
                c.ty = pty
            return Pl(root, (), (I(0), self.length(c)), pty)
        if v.ty is None:
            # remember the pointee type
            c = mk('deref', v)
            if c.ty is None:
                c.ty = pty
                r = self.p.irange(pty) if pty is not None else None
                if r:
                    c.lo, c.hi = r
        return Pl(root, (), None, pty)

    def slice_of(self, st, v, pty=None):
        """(root, path, off, len) of a slice/str/array reference value"""
        if v.op == 'slice':
            return v.a
        if v.op == 'ref':
            c = self.load(st, v.a[0], v.a[1])
            if c.op in ('vec', 'box'):
                return (v.a[0], v.a[1] + (('v',),), I(0), self.length(c.a[0]))
            if c.ty is not None and self.p.types[c.ty].get('path') in ('std::vec::Vec', 'std::string::String', 'std::boxed::Box'):
                cc = self.proj(st, c, ('v',))
                return (v.a[0], v.a[1] + (('v',),), I(0), self.length(cc))
            return (v.a[0], v.a[1], I(0), self.length(c))
        c = self.load(st, ('S', v), ())
        if c.ty is None and pty is not None:
            c.ty = pty
        if c.op in ('vec', 'box'):
            return (('S', v), (('v',),), I(0), self.length(c.a[0]))
        if c.ty is not None and self.p.types[c.ty].get('path') in ('std::vec::Vec', 'std::string::String', 'std::boxed::Box'):
            cc = self.proj(st, c, ('v',))
            return (('S', v), (('v',),), I(0), self.length(cc))
        return (('S', v), (), I(0), self.length(c))

    def mkslice(self, root, path, off, n):
        return mk('slice', root, path, off, n)

    def slice_content(self, st, v):
        """(content term, off, len)"""
        root, path, off, n = self.slice_of(st, v)
        return self.load(st, root, path), off, n

    def subseq(self, st, c, off, n):
        """content term for c[off..off+n]"""
        if c.op == 'seq':
            if off.op == 'int' and n.op == 'int' and all(p[0] == 'o' for p in c.a[0]):
                return mk('seq', c.a[0][off.a[0]:off.a[0] + n.a[0]], ty=c.ty)
            if off.op == 'int' and off.a[0] == 0 and st.entails_eq(n, self.length(c)):
                return c
            if len(c.a[0]) == 1 and c.a[0][0][0] == 's':
                p = c.a[0][0]
                return self.subseq(st, p[1], add(p[2], off), n)
        if c.op == 'rep':
            return mk('rep', c.a[0], n, ty=c.ty)
        if c.op == 'wr':
            prev, wo, wl, src, so = c.a
            if st.entails(sub(off, wo)) and st.entails(sub(add(wo, wl), add(off, n))):
                return self.subseq(st, src, add(so, sub(off, wo)), n)
            if st.entails(sub(wo, add(off, n))) or st.entails(sub(off, add(wo, wl))):
                return self.subseq(st, prev, off, n)
        if off.op == 'int' and off.a[0] == 0 and st.entails_eq(n, self.length(c)):
            return c
        return mk('seq', (('s', c, off, n),), ty=c.ty)

    def parts(self, st, c, off=None, n=None):
        """canonical tuple of parts of a content"""
        if off is not None:
            c = self.subseq(st, c, off, n)
        if c.op == 'seq':
            out = []
            for p in c.a[0]:
                if p[0] == 's' and p[1].op == 'seq' and p[2].op == 'int' and p[2].a[0] == 0 and st.entails_eq(p[3], self.length(p[1])):
                    out += self.parts(st, p[1])
                elif p[0] == 's' and st.entails_eq(p[3], I(0)):
                    continue
                else:
                    out.append(p)
            return tuple(out)
        if c.op == 'rep' and c.a[1].op == 'int' and c.a[1].a[0] <= 64:
            return tuple(('o', c.a[0]) for _ in range(c.a[1].a[0]))
        n = self.length(c)
        if n.op == 'int' and n.a[0] <= 64:
            return tuple(('o', self.elem(st, c, I(k))) for k in range(n.a[0]))
        return (('s', c, I(0), n),)

    def concat(self, st, a, b, ty=None):
        ps = list(self.parts(st, a))
        for q in self.parts(st, b):
            if ps and q[0] == 's' and ps[-1][0] == 's' and ps[-1][1] is q[1] and st.entails_eq(add(ps[-1][2], ps[-1][3]), q[2]):
                ps[-1] = ('s', q[1], ps[-1][2], add(ps[-1][3], q[3]))
            else:
                ps.append(q)
        return mk('seq', tuple(ps), ty=ty if ty is not None else a.ty)

    def emptyseq(self, ty=None):
        return mk('seq', (), ty=ty)

    # ---- evaluating MIR
    def place(self, st, fr, p):
        root = ('L', fr.uid, p[0])
        pl = Pl(root, (), None, fr.b['locals'][p[0]])
        var = None
        for e in p[1]:
            k = e[0]
            if k == '*':
                v = self.read(st, pl)
                t = self.p.types[pl.ty]
                if t['k'] in ('ref', 'ptr'):
                    pl = self.deref(st, v, t['e'])
                elif t.get('path') == 'std::boxed::Box':
                    pl = Pl(pl.root, pl.path + (('v',),), None, t['args'][0])
                    if self.p.tk(pl.ty) in ('slice', 'str'):
                        pl.win = (I(0), self.length(self.load(st, pl.root, pl.path)))
                else:
                    raise Unsupported('deref of ' + t['s'])
                var = None
            elif k == 'f' and var is not None and pl.ty is not None and self.p.types[pl.ty]['k'] == 'coroutine':
                # a local an async function keeps across suspension points: its own storage
                uid = mk('corframe', self.mkref(pl.root, pl.path))
                self._ldef[(uid, (var, e[1]))] = e[2]
                pl = Pl(('L', uid, (var, e[1])), (), None, e[2])
                var = None
            elif k == 'f':
                pl = Pl(pl.root, pl.path + (('f', var, e[1], e[2]),), None, e[2])
                var = None
            elif k == 'd':
                var = e[1]
            elif k == 'i':
                idx = st.norm(self.load(st, ('L', fr.uid, e[1]), ()))
                pl = self.index(pl, idx)
            elif k == 'c':
                off = I(e[1])
                if e[3]:
                    n = pl.win[1] if pl.win else self.length(self.read(st, pl))
                    off = sub(n, off)
                pl = self.index(pl, off)
            elif k == 's':
                n = pl.win[1] if pl.win else self.length(self.read(st, pl))
                base = pl.win[0] if pl.win else I(0)
                to = sub(n, I(e[2])) if e[3] else I(e[2])
                pl = Pl(pl.root, pl.path, (addc(base, e[1]), addc(to, -e[1])), pl.ty)
            elif k == 'o':
                pl = Pl(pl.root, pl.path, pl.win, e[1])
            else:
                raise Unsupported('projection')
        return pl

    def index(self, pl, idx):
        if pl.win is not None:
            idx = add(pl.win[0], idx)
        return Pl(pl.root, pl.path + (('i', idx),), None, self.p.types[pl.ty].get('e') if pl.ty is not None else None)

    def constant(self, j, ty):
        if 'int' in j:
            return I(int(j['int']))
        if 'str' in j or 'bytes' in j:
            bs = j.get('str', j.get('bytes'))
            u8 = self.p.strid.get('u8')
            ct = self.p.types[ty].get('e')
            c = mk('seq', tuple(('o', I(x)) for x in bs), ty=ct)
            return mk('slice', ('C', c), (), I(0), I(len(bs)), ty=ty)
        if 'slice' in j:
            c = mk('seq', tuple(('o', self.constant(x, j['et'])) for x in j['slice']), ty=self.p.types[ty].get('e'))
            return mk('slice', ('C', c), (), I(0), I(len(j['slice'])), ty=ty)
        if 'barr' in j:
            if len(j['barr']) > 512 and len(set(j['barr'])) == 1:
                return mk('rep', I(j['barr'][0]), I(len(j['barr'])), ty=ty)
            return mk('seq', tuple(('o', I(x)) for x in j['barr']), ty=ty)
        if 'ref' in j:
            inner = self.constant(j['ref'], self.p.types[ty]['e'])
            return mk('ref', ('C', inner), ())
        if 'agg' in j:
            k = self.p.tk(ty)
            if k == 'array':
                return mk('seq', tuple(('o', self.constant(x, self.p.types[ty]['e'])) for x in j['f']), ty=ty)
            if self.p.types[ty].get('path') == 'std::vec::Vec':
                return mk('vec', self.emptyseq(self.content_ty(ty)), ty=ty)
            fs = self.p.fields(ty, j['agg'] or 0) or []
            return mk('agg', ty, j['agg'] or 0, tuple(self.constant(x, f) for x, f in zip(j['f'], fs)), ty=ty)
        if 'zst' in j:
            return self.zst(ty)
        if 'static' in j:
            return mk('static', j['static'], ty=ty)
        o = str(j.get('opaque'))
        if o.startswith('Scalar(0x') and o[9:-1].strip('0') == '':
            return I(0)      # zero of an integer type with restricted range
        return self.opq(ty, 'const', j.get('from', '?') + ':' + o, ty)

    def zst(self, ty):
        k = self.p.tk(ty)
        if k == 'struct':
            return mk('agg', ty, 0, tuple(self.zst(f) for f in self.p.fields(ty)), ty=ty)
        if k in ('tuple', 'closure'):
            return mk('agg', ty, 0, tuple(self.zst(f) for f in self.p.fields(ty)), ty=ty)
        return mk('zst', ty, ty=ty)

    def operand(self, st, fr, o):
        k = o[0]
        if k == 'const':
            return self.constant(o[2], o[1])
        if k == 'rt':
            return I(0) if o[1] == 'UbChecks' else I(1) if o[1] == 'OverflowChecks' else I(0)
        pl = self.place(st, fr, o[1])
        v = self.read(st, pl)
        if k == 'move' and not o[1][1]:
            st.mem.pop(pl.root, None)
        return v

    def optype(self, fr, o):
        if o[0] == 'const':
            return o[1]
        return None

    def binop(self, st, op, x, y, ty, cast=None):
        s = self.p.ts(ty)
        r = INTR.get(s)
        if op in ('Eq', 'Ne', 'Lt', 'Le', 'Gt', 'Ge'):
            if r is None and self.p.tk(ty) not in ('int', 'uint', 'bool', 'char'):
                if op in ('Eq', 'Ne'):
                    if x is y:
                        return I(int(op == 'Eq'))
                    c = mk('peq', *sorted((x, y), key=lambda t: t.id), rng=(0, 1))
                    return c if op == 'Eq' else bnot_bool(c)
                return mk('pcmp', op, x, y, rng=(0, 1))
            d = st.norm(sub(x, y))
            if op == 'Eq':
                return self.eqbool(st, x, y, s, d)
            if op == 'Ne':
                return bnot_bool(self.eqbool(st, x, y, s, d))
            if op == 'Lt':
                return ge0(addc(neg(d), -1))
            if op == 'Le':
                return ge0(neg(d))
            if op == 'Gt':
                return ge0(addc(d, -1))
            return ge0(d)
        if op == 'Cmp':
            d = st.norm(sub(x, y))
            return mk('cmp3', d, rng=(-1, 1))
        x, y = st.norm(x), st.norm(y)
        w = WID.get(s)
        signed = s[0] == 'i'
        base = op.replace('WithOverflow', '').replace('Unchecked', '')
        if base in ('Add', 'Sub', 'Mul'):
            v = add(x, y) if base == 'Add' else sub(x, y) if base == 'Sub' else mul(x, y)
            if op.endswith('WithOverflow'):
                lo, hi = r
                ok1, ok2 = ge0(addc(v, -lo)), ge0(addc(neg(v), hi))
                ok = self.andb(ok1, ok2)
                tt = mk('agg', None, 0, (v, bnot_bool(ok)))
                return tt
            if op.endswith('Unchecked'):
                return v
            lo, hi = r
            if st.entails(addc(v, -lo)) and st.entails(addc(neg(v), hi)):
                return v
            if v.op == 'int':
                n = v.a[0] & ((1 << w) - 1)
                if signed and n >> (w - 1):
                    n -= 1 << w
                return I(n)
            # modular result
            return mk('wrap', v, w, int(signed), rng=r)
        if base in ('BitAnd', 'BitOr', 'BitXor'):
            if s == 'bool':
                if base == 'BitAnd':
                    return self.andb(x, y)
                if base == 'BitOr':
                    return bnot_bool(self.andb(bnot_bool(x), bnot_bool(y)))
                if x.op == 'int':
                    return bnot_bool(y) if x.a[0] else y
                if y.op == 'int':
                    return bnot_bool(x) if y.a[0] else x
                return mk('xor_', *sorted((x, y), key=lambda t: t.id), rng=(0, 1))
            if signed and not (x.op == 'int' and y.op == 'int'):
                lo, _ = rng(x)
                lo2, _ = rng(y)
                if lo is None or lo < 0 or lo2 is None or lo2 < 0:
                    return mk('sbop', base, x, y, rng=r)
            return {'BitAnd': band, 'BitOr': bor, 'BitXor': bxor}[base](x, y, w)
        if base in ('Shl', 'Shr'):
            if y.op == 'int' and not signed:
                k = y.a[0] % w
                return bshl(x, k, w) if base == 'Shl' else bshr(x, k)
            if x.op == 'int' and y.op == 'int':
                return I(x.a[0] >> y.a[0]) if base == 'Shr' else mk('sshl', x, y, rng=r)
            return mk('sh', base, x, y, rng=r)
        if base in ('Div', 'Rem'):
            if x.op == 'int' and y.op == 'int' and y.a[0] and x.a[0] >= 0 and y.a[0] > 0:
                return I(x.a[0] // y.a[0] if base == 'Div' else x.a[0] % y.a[0])
            if y.op == 'int' and y.a[0] > 0 and (y.a[0] & (y.a[0] - 1)) == 0 and not signed:
                k = y.a[0].bit_length() - 1
                return bshr(x, k) if base == 'Div' else band(x, I(y.a[0] - 1), w)
            hi = rng(x)[1]
            if base == 'Rem' and y.op == 'int' and y.a[0] > 0 and not signed:
                return mk('rem', x, y, rng=(0, y.a[0] - 1))
            return mk('divrem', base, x, y, rng=r if signed or hi is None else (0, hi))
        if base == 'Offset':
            return mk('ptroff', x, y)
        return mk('binop', op, x, y, rng=r)

    def eqbool(self, st, x, y, s, d):
        if s == 'bool':
            if x.op == 'int':
                return y if x.a[0] else bnot_bool(y)
            if y.op == 'int':
                return x if y.a[0] else bnot_bool(x)
            if x is y:
                return TRUE
            return mk('iff_', *sorted((x, y), key=lambda t: t.id), rng=(0, 1))
        return eq0(d)

    def andb(self, x, y):
        if x.op == 'int':
            return y if x.a[0] else FALSE
        if y.op == 'int':
            return x if y.a[0] else FALSE
        if x is y:
            return x
        return mk('band_', *sorted((x, y), key=lambda t: t.id), rng=(0, 1))

    def cast(self, st, fr, kind, v, ty, ft, op):
        if kind == 'IntToInt':
            s, f = self.p.ts(ty), self.p.ts(ft)
            if self.p.tk(ft) == 'enum':
                v = self.discr(st, v, ft)
            lo, hi = INTR[s]
            v = st.norm(v)
            if v.op in ('ge0', 'eq0', 'not', 'band_', 'xor_', 'iff_', 'bor_'):
                return v
            if st.entails(addc(v, -lo)) and st.entails(addc(neg(v), hi)):
                return v
            if v.op == 'int':
                w = WID[s]
                n = v.a[0] & ((1 << w) - 1)
                if s[0] == 'i' and n >> (w - 1):
                    n -= 1 << w
                return I(n)
            if s[0] != 'i':
                l = rng(v)[0]
                if l is not None and l >= 0:
                    return btrunc(v, WID[s])
            return mk('icast', v, s, rng=INTR[s])
        if kind.startswith('coerce:'):
            if 'Unsize' in kind:
                t = self.p.types[ty]
                if t['k'] in ('ref', 'ptr') and self.p.tk(t['e']) == 'slice':
                    return mk('slice', *self.slice_of(st, v, self.p.types[ft].get('e')), ty=ty)
                return v
            return v
        if kind.startswith('BoxDeref'):
            # address of the boxed value: strip the projections down to the Box itself
            pl0 = op[1]
            prefix = [pl0[0], list(pl0[1])]
            while prefix[1] and prefix[1][-1][0] == 'f':
                prefix[1].pop()
                # the type before this projection
                pl = self.place(st, fr, prefix)
                if pl.ty is not None and self.p.types[pl.ty].get('path') == 'std::boxed::Box':
                    inner = self.p.types[pl.ty]['args'][0]
                    path = pl.path + (('v',),)
                    if self.p.tk(inner) in ('slice', 'str'):
                        return mk('slice', pl.root, path, I(0), self.length(self.load(st, pl.root, path)))
                    return mk('ref', pl.root, path)
            return mk('boxptr', v, ty=ty)
        if kind in ('PtrToPtr', 'Subtype'):
            return v
        if kind == 'Transmute':
            fk, tk_ = self.p.tk(ft), self.p.tk(ty)
            if fk in ('ref', 'ptr') and tk_ in ('ref', 'ptr'):
                return v
            fs = self.p.fields(ft) if fk == 'struct' else None
            if fk == 'struct' and tk_ in ('ref', 'ptr', 'uint', 'int'):
                return self.unwrap1(st, v)
            if tk_ == 'struct' and fk in ('ref', 'ptr', 'uint', 'int') and len(self.p.fields(ty)) >= 1:
                return self.wrap1(ty, v)
            if fk == 'uint' and tk_ == 'uint' or fk == 'int' and tk_ == 'uint' or (fk, tk_) == ('bool', 'uint'):
                return v
            if fk == 'array' or tk_ == 'array':
                # bytes <-> integer
                if tk_ == 'array' and fk == 'uint' and self.p.ts(self.p.types[ty]['e']) == 'u8':
                    return mk('seq', tuple(('o', b) for b in bytes_of(v, self.p.types[ty]['n'])), ty=ty)
                if fk == 'array' and tk_ == 'uint' and self.p.ts(self.p.types[ft]['e']) == 'u8':
                    return from_bytes([self.elem(st, v, I(k)) for k in range(self.p.types[ft]['n'])])
                if fk == 'array' and tk_ == 'array':
                    return v
            return self.opq(ty, 'transmute', v, ty)
        if kind in ('PointerExposeProvenance', 'PointerWithExposedProvenance', 'FnPtrToPtr'):
            return v
        return self.opq(ty, 'cast', kind, v, ty)

    def unwrap1(self, st, v):
        while v.op == 'agg' and len(v.a[2]) >= 1:
            v = v.a[2][0]
        return v

    def wrap1(self, ty, v):
        if self.p.tk(ty) != 'struct':
            return v
        fs = self.p.fields(ty)
        if not fs:
            return self.zst(ty)
        return mk('agg', ty, 0, (self.wrap1(fs[0], v),) + tuple(self.zst(f) for f in fs[1:]), ty=ty)

    def discr(self, st, v, ty):
        t = self.p.types[ty]
        if t['k'] != 'enum':
            return I(0)
        if v.op == 'agg':
            return I(self.sdisc(t, v.a[1]))
        if v.op == 'cmp3':
            return v
        if v.op == 'int':      # C-like enum cast
            return v
        ds = [self.sdisc(t, i) for i in range(len(t['v']))]
        d = mk('discr', v, rng=(min(ds), max(ds)) if ds else (0, 0))
        return st.norm(d)

    def sdisc(self, t, i):
        d = int(t['v'][i]['d'])
        if 'dt' in t:
            s = self.p.ts(t['dt'])
            if s[0] == 'i':
                w = WID[s]
                if d >= 1 << (w - 1):
                    d -= 1 << w
        return d

    def rvalue(self, st, fr, r, dty=None):
        k = r[0]
        if k == 'use':
            return self.operand(st, fr, r[1])
        if k in ('ref', 'reborrow'):
            pl = self.place(st, fr, r[2])
            if k == 'reborrow':
                return self.read(st, pl)
            if pl.win is not None:
                return self.mkslice(pl.root, pl.path, *pl.win)
            return self.mkref(pl.root, pl.path)
        if k == 'bin':
            x = self.operand(st, fr, r[2])
            y = self.operand(st, fr, r[3])
            return self.binop(st, r[1], x, y, r[4])
        if k == 'cast':
            if r[1].startswith('BoxDeref'):
                return self.cast(st, fr, r[1], None, r[3], r[4], r[2])
            v = self.operand(st, fr, r[2])
            return self.cast(st, fr, r[1], v, r[3], r[4], r[2])
        if k == 'un':
            x = self.operand(st, fr, r[2])
            if r[1] == 'Not':
                if self.p.ts(r[3]) == 'bool':
                    return bnot_bool(st.norm(x))
                if self.p.ts(r[3])[0] == 'i':
                    return addc(neg(x), -1)
                return bnot(st.norm(x), WID[self.p.ts(r[3])])
            if r[1] == 'Neg':
                return neg(x)
            if r[1] == 'PtrMetadata':
                if x.op == 'slice':
                    return x.a[3]
                pt = self.p.types[r[3]].get('e')
                if pt is not None and self.p.tk(pt) in ('slice', 'str'):
                    return self.slice_of(st, x, pt)[3]
                return self.opq(dty, 'meta', x)
        if k == 'discr':
            pl = self.place(st, fr, r[1])
            return self.discr(st, self.read(st, pl), r[2])
        if k == 'agg':
            kind = r[1]
            vs = tuple(self.operand(st, fr, o) for o in r[2])
            if kind[0] == 'array':
                return mk('seq', tuple(('o', v) for v in vs), ty=dty)
            if kind[0] == 'adt':
                v = mk('agg', kind[1], kind[2], vs, ty=kind[1])
                if self.on_agg:
                    h = self.on_agg.get(self.p.types[kind[1]].get('path'))
                    if h:
                        h(self, st, fr, v)
                return v
            if kind[0] == 'tuple':
                return mk('agg', dty, 0, vs, ty=dty)
            if kind[0] in ('closure', 'coroutine'):
                return mk('agg', kind[1], 0, vs, ty=kind[1])
            if kind[0] == 'rawptr':
                if len(vs) == 2 and vs[1].op != 'agg':
                    v = vs[0]
                    if v.op == 'ref' or v.op == 'slice' or v.op not in ('int',):
                        root, path, off, n = self.slice_of(st, v) if v.op == 'slice' else (v.a[0], v.a[1], I(0), None) if v.op == 'ref' else (('S', v), (), I(0), None)
                        if path and path[-1][0] == 'i':
                            off, path = path[-1][1], path[:-1]
                        return self.mkslice(root, path, off, vs[1])
                return vs[0]
            return self.opq(dty, 'agg?', *vs)
        if k == 'repeat':
            v = self.operand(st, fr, r[1])
            n = r[2]
            if n is None:
                return self.opq(dty, 'repeat', v)
            if n <= 64:
                return mk('seq', tuple(('o', v) for _ in range(n)), ty=dty)
            return mk('rep', v, I(n), ty=dty)
        return self.opq(dty, 'rv', fr.uid, str(r[1])[:60])

    # ---- executing
    def stmt(self, st, fr, s):
        if s[0] == '=':
            pl = self.place(st, fr, s[1])
            v = self.rvalue(st, fr, s[2], pl.ty)
            if v.op == 'agg' and v.a[0] is None and pl.ty is not None:
                v = mk('agg', pl.ty, v.a[1], v.a[2], ty=pl.ty)
            elif s[2][0] == 'agg' and s[2][1][0] == 'adt' and s[2][1][3] is not None and self.p.types[s[2][1][1]]['k'] == 'union':
                pass
            self.assign(st, pl, v)
        elif s[0] == 'setd':
            pl = self.place(st, fr, s[1])
            v = self.read(st, pl)
            if pl.ty is not None and self.p.types[pl.ty]['k'] == 'coroutine':
                pass
            elif v.op == 'agg':
                fs = v.a[2]
                self.assign(st, pl, mk('agg', v.a[0], s[2], fs, ty=v.a[0]))
            else:
                fs = self.p.fields(pl.ty, s[2])
                self.assign(st, pl, mk('agg', pl.ty, s[2], tuple(self.opq(f, 'undef', j, f) for j, f in enumerate(fs)), ty=pl.ty))
        elif s[0] in ('live', 'dead'):
            st.mem.pop(('L', fr.uid, s[1]), None)
        elif s[0] == 'assume':
            pass

    def assign(self, st, pl, v):
        if pl.win is not None:
            c = self.load(st, pl.root, pl.path)
            self.store(st, pl.root, pl.path, mk('wr', c, pl.win[0], pl.win[1], v, I(0), ty=c.ty))
            return
        self.store(st, pl.root, pl.path, v)

    def panic(self, st, fr, kind, span):
        rec = (kind, tuple((f.b['path'], f.site) for f in fr.stack()), span, st)
        self.panics.append(rec)

    def block(self, st, fr, n):
        """-> list of (succ block or 'return', state)"""
        self.steps += 1
        if self.steps > self.max_steps:
            raise Budget()
        sts, term, span, cleanup = fr.b['body'][n]
        for s in sts:
            self.stmt(st, fr, s)
        k = term[0]
        if k == 'goto':
            return [(term[1], st)]
        if k == 'return':
            return [('return', st)]
        if k == 'switch':
            return self.switch(st, fr, term)
        if k == 'assert':
            c = self.operand(st, fr, term[1])
            exp = term[2]
            t = st.truth(c)
            out = []
            if term[3][0] in ('ub', 'resumed'):
                return [(term[4], st)]
            if t is not exp:
                bad = st.copy()
                if bad.assume(c, not exp):
                    self.panic(bad, fr, term[3][0], span)
            if t is None or t is exp:
                if st.assume(c, exp):
                    out.append((term[4], st))
            return out
        if k == 'call':
            return self.do_call(st, fr, term, span, n)
        if k == 'drop':
            outs = self.drop_place(st, fr, term[1], term[3], n)
            return [(term[2], s) for s in outs]
        if k in ('unreachable', 'resume', 'other'):
            return []
        if k == 'yield':
            return [(term[1], st)]
        raise Unsupported(k)

    def switch(self, st, fr, term):
        d = st.norm(self.operand(st, fr, term[1]))
        targets = term[2]
        s = self.p.ts(term[4])
        if d.op == 'int':
            w = WID.get(s, 64)
            for v, b in targets:
                v = int(v)
                if v == d.a[0] or (d.a[0] < 0 and v == d.a[0] + (1 << w)):
                    return [(b, st)]
            return [(term[3], st)]
        out = []
        rest = st
        if s == 'bool':
            for v, b in targets:
                s2 = st.copy()
                if s2.assume(d, bool(int(v))):
                    out.append((b, s2))
            o = st.copy()
            ok = True
            for v, b in targets:
                ok = ok and o.assume(d, not bool(int(v)))
            if ok:
                out.append((term[3], o))
            return out
        ok = True
        for v, b in targets:
            v = int(v)
            if s[0] == 'i' and v >= 1 << (WID[s] - 1):
                v -= 1 << WID[s]
            if d.op == 'cmp3':
                l = d.a[0]
                conds = [ge0(addc(neg(l), -1)) if v < 0 else eq0(l) if v == 0 else ge0(addc(l, -1))]
                c = conds[0]
            else:
                c = eq0(addc(d, -v))
            s2 = rest.copy()
            if s2.assume(c, True):
                out.append((b, s2))
            if ok:
                ok = rest.assume(c, False)
                if not ok:
                    break
        if ok:
            out.append((term[3], rest))
        return out

    # ---- calls
    def do_call(self, st, fr, term, span, n):
        f, ops, dest, target = term[1], term[2], term[3], term[4]
        args = [self.operand(st, fr, o) for o in ops]
        # resolve destination before the call (places evaluated early)
        res = self.call(st, fr, f, args, term[5], term[6], (fr, n, span))
        out = []
        for s, v in res:
            if target is None:
                continue
            pl = self.place(s, fr, dest)
            if v is None:
                v = self.opq(pl.ty, 'unit')
            if v.op == 'agg' and v.a[0] is None:
                v = mk('agg', pl.ty, v.a[1], v.a[2], ty=pl.ty)
            self.assign(s, pl, v)
            out.append((target, s))
        return out

    def call(self, st, fr, f, args, atys, dty, site):
        """call a callee description; -> [(state, value)]"""
        self.sites += 1
        if 'ptr' in f:
            fn = self.operand(st, fr, f['ptr'])
            return self.call_value(st, fr, fn, args, dty, site)
        c = CallCtx(self, f, args, atys, dty, site, fr)
        if self.on_call:
            r = self.on_call(c, st, args)
            if r is not None:
                return r
        if f.get('ctor') or (f.get('rkind') == 'item' and f.get('i') is not None and self.p.types[dty]['k'] in ('struct', 'enum') and self.is_ctor(f, dty) is not None):
            var = self.is_ctor(f, dty)
            if var is not None:
                v = mk('agg', dty, var, tuple(args), ty=dty)
                if self.on_agg:
                    h = self.on_agg.get(self.p.types[dty].get('path'))
                    if h:
                        h(self, st, fr, v)
                return [(st, v)]
        if f.get('name') in ('call', 'call_mut', 'call_once') and len(args) == 2 and 'std::ops::Fn' in (f.get('trait') or f['path']):
            return self.call_value(st, fr, args[0], self.untuple(st, args[1], atys[1]), dty, site)
        m = self.find_model(f)
        if m is not None:
            r = m(c, st, *args)
            if r is not NotImplemented:
                return r
        i = f.get('i')
        if i is not None:
            if i in self.summaries:
                r = self.summaries[i](c, st, args)
                if r is not None:
                    return r
            b = self.p.bodies.get(i)
            if b and b['body'] is not None:
                return self.invoke(st, fr, b, args, site, dty)
        # dynamic dispatch / closures through Fn traits
        if f.get('name') in ('call', 'call_mut', 'call_once') and args:
            return self.call_value(st, fr, args[0], self.untuple(st, args[1], atys[1]), dty, site)
        return self.unknown_call(c, st, args)

    def untuple(self, st, v, ty):
        n = len(self.p.fields(ty) or [])
        return [self.proj(st, v, ('f', 0, k, self.p.fields(ty)[k])) for k in range(n)]

    def is_ctor(self, f, dty):
        t = self.p.types[dty]
        if t['k'] not in ('struct', 'enum'):
            return None
        if not f.get('ctor'):
            return None
        nm = f['path'].split('::')[-1]
        for i, v in enumerate(t['v']):
            if v['n'] == nm:
                return i
        return None

    def find_model(self, f):
        i = id(f)
        if i in self._fm:
            return self._fm[i]
        r = None
        isf = self.models.get('@future')
        if isf and isf(f):
            r = self.models['@poll']
        else:
            for k in (f.get('rpath'), f.get('path')):
                if k is None:
                    continue
                r = self.models.get(normpath(k))
                if r:
                    break
        self._fm[i] = r
        return r

    def invoke(self, st, fr, b, args, site, dty=None):
        self.called.add(b['id'])
        uid = mk('frame', fr.uid if fr else None, site[1] if site else None, b['id'])
        if fr and fr.depth > 60:
            self.notes['depth:' + b['path']] += 1
            return [(st, self.opq(dty, 'deep', uid))]
        f2 = Frame(uid, b, fr, site[2] if site else None)
        # recursion guard
        g, cnt = fr, 0
        while g:
            if g.b['id'] == b['id']:
                cnt += 1
            g = g.parent
        if cnt >= 2:
            self.notes['recursion:' + b['path']] += 1
            return [(st, self.opq(dty, 'rec', uid))]
        for n in range(len(b['locals'])):
            self._ldef[(uid, n)] = b['locals'][n]
        if 'spread' in b or (b['argc'] != len(args) and len(args) == 2):
            # "rust-call" ABI: closures take their arguments as a tuple
            sp = b.get('spread')
            if sp is not None and b['argc'] == len(args):
                pass
            elif b['argc'] != len(args):
                t = args[-1]
                n = b['argc'] - (len(args) - 1)
                args = list(args[:-1]) + [self.proj(st, t, ('f', 0, k, b['locals'][len(args) + k])) for k in range(n)]
        for k in range(b['argc']):
            v = args[k] if k < len(args) else self.opq(b['locals'][k + 1], 'noarg', uid, k)
            st.mem[('L', uid, k + 1)] = v
        outs = self.run(st, f2)
        res = []
        for s in outs:
            rv = s.mem.get(('L', uid, 0))
            if rv is None:
                rv = self.zst(b['locals'][0])
            for key in [k for k in s.mem if k[0] == 'L' and k[1] is uid]:
                del s.mem[key]
            res.append((s, rv))
        return self.merge_returns(res, uid)

    def merge_returns(self, res, uid):
        if len(res) <= 1 or (self.exact and len(res) <= self.MAXSTATES):
            return res
        # identical up to facts: join facts
        self.lost += bool(self.exact)
        groups = {}
        for s, v in res:
            groups.setdefault((s.sig(), v), []).append(s)
        out = []
        for (sg, v), ss in groups.items():
            if len(ss) == 1:
                out.append((ss[0], v))
            else:
                out.append((self.join_facts(ss), v))
        if len(out) > self.compact:
            if self.compact >= self.MAXSTATES:
                self.notes['joined-returns'] += 1
            g2 = {}
            dep = 2 if self.compact >= self.MAXSTATES else 0
            for s, v in out:
                g2.setdefault((s.ev, self.shape(s, v, dep), self.sshape(s)), []).append((s, v))
            out = []
            for key, lst in g2.items():
                if len(lst) == 1:
                    out.append(lst[0])
                    continue
                ss = []
                for s, v in lst:
                    s = s.copy()
                    s.mem[('R', uid)] = v
                    ss.append(s)
                j = self.join(ss, mk('retctx', uid))
                v = j.mem.pop(('R', uid), None)
                if v is None:
                    v = mk('ret', uid)
                out.append((j, v))
        return out

    def join_facts(self, ss):
        s = ss[0].copy()
        facts = set(s.facts)
        for o in ss[1:]:
            facts = {f for f in facts if f in o.facts or o.entails(mklin(f[0], dict(f[1])))}
        s.facts = frozenset(facts)
        s.neq = frozenset(x for x in s.neq if all(x in o.neq for o in ss[1:]))
        s.eqc = {k: v for k, v in s.eqc.items() if all(o.eqc.get(k) == v for o in ss[1:])}
        s.kb = {k: v for k, v in s.kb.items() if all(o.kb.get(k) == v for o in ss[1:])}
        return s

    def call_value(self, st, fr, fn, args, dty, site):
        """call a function value (closure aggregate, fn item, reference to one)"""
        v = fn
        for _ in range(6):
            if v.op == 'ref':
                inner = self.load(st, v.a[0], v.a[1])
                if inner.op == 'agg' and inner.ty is not None and self.p.tk(inner.ty) == 'closure':
                    t = self.p.types[inner.ty]
                    b = self.p.bodies[t['i']]
                    if b['body'] is None:
                        break
                    selfty = b['locals'][1]
                    a0 = v if self.p.tk(selfty) == 'ref' else inner
                    return self.invoke(st, fr, b, [a0] + list(args), site, dty)
                v = inner
                continue
            if v.op == 'box':
                v = v.a[0]
                continue
            if v.op == 'agg' and v.ty is not None and self.p.tk(v.ty) == 'closure':
                t = self.p.types[v.ty]
                b = self.p.bodies[t['i']]
                if b['body'] is None:
                    break
                selfty = b['locals'][1]
                if self.p.tk(selfty) == 'ref':
                    root = ('T', site[0].uid, site[1])
                    st.mem[root] = v
                    a0 = mk('ref', root, ())
                else:
                    a0 = v
                return self.invoke(st, fr, b, [a0] + list(args), site, dty)
            if v.op in ('zst', 'agg') and v.ty is not None and self.p.tk(v.ty) == 'fndef':
                f = self.p.types[v.ty]['fn']
                ins = self.p.types[v.ty].get('ins') or [None] * len(args)
                return self.call(st, fr, f, list(args), [a.ty if a.ty is not None else i for a, i in zip(args, ins)], self.p.types[v.ty].get('out') if dty is None else dty, site)
            break
        # opaque callable
        if v.op not in ('agg', 'zst') and v.ty is not None and self.p.tk(v.ty) in ('ref',) and v.op != 'ref':
            pass
        base = fn
        while base.op == 'ref':
            base = self.load(st, base.a[0], base.a[1])
        tag = base
        r = self.models['@fresh'](CallCtx(self, None, args, [], dty, site, fr), st, 'callback', dty)
        if self.outs is not None:
            for a in args:
                if a.op == 'fmtargs':
                    for q in a.a[0] if a.a else [('args', a)]:
                        self.outs.append((st.copy(), q, CallCtx(self, None, args, [], dty, site, fr)))
        self.emit(st, 'callback', tag, tuple(args), r, site[2], tuple(self.load(st, a.a[0], a.a[1]) if a.op == 'ref' else a for a in args))
        return [(st, r)]

    def emit(self, st, *e):
        if self.opts.get('noev'):
            return
        st.ev = mk('ev', st.ev, e)
        if self.ev_hook:
            self.ev_hook(st, e)

    def havoc_arg(self, st, a, site, ty=None):
        pass

    def unknown_call(self, c, st, args):
        self.unknown[c.name()] += 1
        r = self.models['@fresh'](c, st, c.name(), c.dty)
        self.unk.add(r)
        for a, ty in zip(args, c.atys):
            self.havoc_val(st, a, ty, c)
        self.emit(st, 'call', c.name(), tuple(args), r, c.site[2])
        return [(st, r)]

    def havoc_val(self, st, v, ty, c, depth=0):
        """forget everything that can be changed through a value"""
        if depth > 6:
            return
        if v.op == 'mentry':
            self.havoc_ref(st, mk('ref', v.a[1], v.a[2]), None, c, depth)
            return
        if ty is None or v.op == 'agg' and v.ty is not None:
            ty = v.ty
        t = self.p.types[ty] if ty is not None else None
        if not t:
            return
        if t['k'] in ('ref', 'ptr'):
            if t.get('mut'):
                self.havoc_ref(st, v, t['e'], c, depth)
        elif v.op == 'agg' and t['k'] in ('struct', 'tuple', 'closure', 'enum', 'coroutine'):
            try:
                fs = self.p.fields(ty, v.a[1]) if t['k'] == 'enum' else self.p.fields(ty)
            except (KeyError, TypeError, IndexError):
                return
            for x, fty in zip(v.a[2], fs):
                if isinstance(x, T):
                    self.havoc_val(st, x, fty, c, depth + 1)
        elif v.op in ('vec', 'box') and v.a[0].op == 'seq':
            for x in v.a[0].a[0]:
                if x[0] == 'o' and x[1].ty is not None:
                    self.havoc_val(st, x[1], x[1].ty, c, depth + 1)

    def havoc_ref(self, st, a, ety, c, depth=0):
        pl = self.deref(st, a, ety)
        old = self.load(st, pl.root, pl.path)
        self.havoc_val(st, old, old.ty if old.ty is not None else ety, c, depth + 1)
        new = self.opq(old.ty if old.ty is not None else ety, 'havoc', c.site[0].uid, c.site[1], old if old.op == 'sym' else 0)
        self.unk.add(new)
        self.store(st, pl.root, pl.path, new)

    # ---- drops
    def drop_place(self, st, fr, place, ty, n):
        if not self.p.needs_local_drop(ty):
            pl = self.place(st, fr, place)
            if not place[1]:
                st.mem.pop(pl.root, None)
            return [st]
        pl = self.place(st, fr, place)
        return self.drop_val(st, fr, pl, ty, (fr, ('drop', n), fr.b['body'][n][2]))

    def drop_val(self, st, fr, pl, ty, site):
        t = self.p.types[ty]
        sts = [st]
        if t.get('path') in self.drop_summaries:
            return self.drop_summaries[t['path']](self, st, pl, ty, site)
        if t['k'] in ('struct', 'enum') and t.get('drop') and t['crate'].startswith('uwuhi') and 'dropi' in t:
            b = self.p.bodies[t['dropi']]
            nxt = []
            for s in sts:
                for s2, _ in self.invoke(s, fr, b, [self.mkref(pl.root, pl.path)], site):
                    nxt.append(s2)
            sts = nxt
        if t['k'] in ('struct', 'tuple', 'closure'):
            for k, fty in enumerate(self.p.fields(ty)):
                if self.p.needs_local_drop(fty):
                    nxt = []
                    for s in sts:
                        nxt += self.drop_val(s, fr, Pl(pl.root, pl.path + (('f', 0, k, fty),), None, fty), fty, (fr, (site[1], k), site[2]))
                    sts = nxt
        elif t['k'] == 'enum':
            nxt = []
            for s in sts:
                v = self.read(s, pl)
                if v.op == 'agg':
                    var = v.a[1]
                    cur = [s]
                    for k, fty in enumerate(self.p.fields(ty, var)):
                        if self.p.needs_local_drop(fty):
                            n2 = []
                            for x in cur:
                                n2 += self.drop_val(x, fr, Pl(pl.root, pl.path + (('f', var, k, fty),), None, fty), fty, (fr, (site[1], k), site[2]))
                            cur = n2
                    nxt += cur
                else:
                    nxt.append(s)
            sts = nxt
        return sts

    # ---- function bodies
    def run(self, st, fr):
        cfg = self.p.cfg(fr.b)
        ex = self.region(fr, cfg, cfg.blocks, 0, [st], None)
        return ex.get('return', [])

    def prune(self, st, fr, cfg, n):
        live = cfg.live.get(n)
        dead = [k for k in st.mem if k[0] == 'L' and k[1] is fr.uid and k[2] not in live]
        for k in dead:
            del st.mem[k]

    def dedupe(self, sts, fr, n):
        if len(sts) <= 1 or (self.exact and len(sts) <= self.MAXSTATES):
            return sts
        self.lost += bool(self.exact)
        g = {}
        for s in sts:
            g.setdefault(s.sig(), []).append(s)
        out = [ss[0] if len(ss) == 1 else self.join_facts(ss) for ss in g.values()]
        if len(out) > self.MAXSTATES:
            self.notes['joined-block'] += 1
            g2 = {}
            for s in out:
                g2.setdefault((s.ev, self.sshape(s)), []).append(s)
            out = [ss[0] if len(ss) == 1 else self.join(ss, mk('jctx', fr.uid, n)) for ss in g2.values()]
        return out

    def region(self, fr, cfg, blocks, entry, states, head):
        pend = {entry: list(states)}
        exits = {}

        def put(tgt, s):
            if tgt == 'return' or tgt not in blocks or tgt == head:
                exits.setdefault(tgt, []).append(s)
            else:
                pend.setdefault(tgt, []).append(s)
        for comp, h, nontriv in cfg.comps(blocks, head):
            if not nontriv:
                n = h
                ss = pend.pop(n, None)
                if not ss:
                    continue
                for s in ss:
                    self.prune(s, fr, cfg, n)
                if cfg.npred[n] > 1 or len(ss) > 8:
                    ss = self.dedupe(ss, fr, n)
                for s in ss:
                    for tgt, s2 in self.block(s, fr, n):
                        put(tgt, s2)
            else:
                entries = [(n, pend.pop(n)) for n in list(pend) if n in comp]
                if not entries:
                    continue
                hd = min((n for n, _ in entries), key=lambda n: cfg.rpo[n])
                if len(entries) > 1:
                    self.notes['irreducible'] += 1
                ss = [s for _, l in entries for s in l]
                for s in ss:
                    self.prune(s, fr, cfg, hd)
                ss = [y for s in self.dedupe(ss, fr, hd) for y in self.split_bools(s)]

                def step(s, hd=hd, comp=comp):
                    ex = self.region(fr, cfg, comp, hd, [s], hd)
                    back = ex.pop(hd, [])
                    for b in back:
                        self.prune(b, fr, cfg, hd)
                    back = [y for b in back for y in self.split_bools(b)]
                    return back, [(k, x) for k, l in ex.items() for x in l]
                for tgt, s2 in self.fix(fr, ('b', hd), ss, step):
                    put(tgt, s2)
        return exits

    # ---- loop fixpoint
    def fix(self, fr, lkey, entries, step):
        """abstract loop: -> [(exit label, state)]"""
        n = self.opts.get('unroll', 0)
        if n and lkey not in self.endless:
            cur, out = list(entries), []
            for _ in range(n + 1):
                nxt = []
                for s in cur:
                    back, ex = step(s.copy())
                    nxt += back
                    out += ex
                cur = nxt
                if not cur:
                    return out
                if len(cur) > 24:
                    break
            self.endless.add(lkey)
        parts = {}
        for s in entries:
            parts.setdefault((s.ev, self.sshape(s)), []).append(s)
        exits = []
        # group by entry event prefix; each prefix has its own marker
        byev = {}
        for (ev, shp), ss in parts.items():
            byev.setdefault(ev, []).append((shp, ss))
        for ev, lst in byev.items():
            marker = mk('loop', ev, fr.uid, lkey)
            heads = {}
            exs = {}
            work = []
            entered = []
            logged = {}
            for shp, ss in lst:
                ctx = mk('lctx', fr.uid, lkey, shp)
                ss = [self.rename_old(s, ctx) for s in ss]
                self.loop_init.setdefault(marker, []).extend(ss)
                entered += ss
                h = ss[0] if len(ss) == 1 else self.join(ss, ctx)
                h = h.copy()
                h.ev = marker
                heads[shp] = [h, ctx, 0]
                work.append(shp)
            recs = self.loops.setdefault(marker, [])
            while work:
                shp = work.pop(0)
                h, ctx, cnt = heads[shp]
                heads[shp][2] += 1
                if cnt > 14:
                    self.notes['widen-limit'] += 1
                    exs.setdefault(shp, [])
                    continue
                # loops within this one are analysed again from the wider state
                for m0, rs, es in logged.get(shp, ()):
                    self.loops[m0] = [r for r in self.loops.get(m0) or [] if not any(r is x for x in rs)]
                    self.loop_init[m0] = [r for r in self.loop_init.get(m0) or [] if not any(r is x for x in es)]
                at = len(self.loop_log)
                back, ex = step(h.copy())
                logged[shp] = self.loop_log[at:]
                exs[shp] = ex
                backrec = []
                for b in back:
                    evs = self.iter_events(b.ev, marker)
                    rec = LoopRec(fr, lkey, shp, h, b, evs, cnt)
                    backrec.append(rec)
                self.loops.setdefault((marker, shp), None)
                self.loops[(marker, shp)] = backrec
                groups = {}
                for b in back:
                    b = b.copy()
                    b.ev = marker
                    groups.setdefault(self.sshape(b), []).append(b)
                for s2, bs in groups.items():
                    if s2 in heads:
                        old = heads[s2][0]
                        c2 = heads[s2][1]
                        new = self.join([old] + bs, c2, old=True)
                        if not self.same_state(new, old):
                            heads[s2][0] = new
                            if s2 not in work:
                                work.append(s2)
                    else:
                        if len(heads) > 24:
                            self.notes['partition-limit'] += 1
                            s2 = next(iter(heads))
                            new = self.join([heads[s2][0]] + bs, heads[s2][1], old=True)
                            if not self.same_state(new, heads[s2][0]):
                                heads[s2][0] = new
                                if s2 not in work:
                                    work.append(s2)
                            continue
                        c2 = mk('lctx', fr.uid, lkey, s2)
                        nb = bs[0] if len(bs) == 1 else self.join(bs, c2)
                        heads[s2] = [nb, c2, 0]
                        work.append(s2)
            allrec = []
            for shp in heads:
                allrec += self.loops.get((marker, shp)) or []
            self.loops[marker] = recs + allrec
            self.loop_log.append((marker, allrec, entered))
            if self.loop_check:
                self.loop_check(self, fr, lkey, [h[0] for h in heads.values()], allrec)
            for shp in exs:
                exits += exs[shp]
            if self.opts.get('rotate') and any(e.op == 'ev' and e.a[1][0] == 'recv' for r in allrec for e in r.evs):
                # an exit taken at the head, before anything happens, is taken on entering the loop or after an iteration: say which
                now = [x for x in exits if x[1].ev is marker]
                if now:
                    exits = [x for x in exits if x[1].ev is not marker]
                    self.norecv = True
                    try:
                        for shp, ss in lst:
                            for s in ss:
                                exits += [x for x in step(s.copy())[1] if x[1].ev is ev]
                        for r in allrec:
                            exits += [x for x in step(r.back.copy())[1] if x[1].ev is r.back.ev]
                    finally:
                        self.norecv = False
        return exits

    def iter_events(self, ev, marker):
        out = []
        x = ev
        while x is not None and x is not marker:
            out.append(x)
            x = x.a[0]
        out.reverse()
        return tuple(out)

    def rename_old(self, s, ctx):
        """phis of an earlier activation of the same loop become plain opaque terms"""
        hit = set()
        for v in list(s.mem.values()):
            for x in tsyms(v):
                if x.op == 'phi' and x.a[0] is ctx:
                    hit.add(x)
        for f in s.facts:
            for a, _ in f[1]:
                for x in tsyms(a):
                    if x.op == 'phi' and x.a[0] is ctx:
                        hit.add(x)
        if not hit:
            return s
        m = {x: mk('oldphi', x, ty=x.ty, rng=(x.lo, x.hi)) for x in hit}
        s = s.copy()
        self.rename(s, m)
        return s

    def same_state(self, a, b):
        return a.mem == b.mem and a.facts == b.facts and a.eqc == b.eqc and a.kb == b.kb and a.neq == b.neq and a.ghost == b.ghost

    # ---- partition keys
    def shape(self, st, v, d):
        if v.op == 'agg':
            if v.a[0] is not None and self.p.tk(v.a[0]) == 'enum':
                if d <= 0:
                    return v.a[1]
                return (v.a[1],) + tuple(self.shape(st, x, d - 1) for x in v.a[2])
            if d <= 0:
                return None
            r = tuple(self.shape(st, x, d) for x in v.a[2])
            return r if any(x is not None for x in r) else None
        if v.op == 'int':
            return None
        if v.op in ('ref', 'slice'):
            return None
        return None

    def sshape(self, st):
        out = []
        for k, v in st.mem.items():
            s = self.shape(st, v, 2)
            if s is None and k[0] == 'L':
                ty = self.local_ty(k)
                if ty is not None:
                    s = self.bshape(st, v, ty, 3)
            elif k[0] == 'L':
                ty = self.local_ty(k)
                if ty is not None:
                    s = (s, self.bshape(st, v, ty, 3))
            else:
                if v.ty is not None:
                    b = self.bshape(st, v, v.ty, 3)
                    if b is not None:
                        s = (s, b)
            if s is not None:
                out.append((k, s))
        for k, v in st.ghost.items():
            if not isinstance(v, T):
                out.append((k, v))
        return frozenset(out)

    def split_bools(self, st):
        """case split of the booleans in memory whose value is a condition: loop heads are told apart by them"""
        for k, v in list(st.mem.items()):
            ty = self.local_ty(k) if k[0] == 'L' else v.ty
            if ty is None:
                continue
            t = self.some_cond(st, v, ty, 3)
            if t is None:
                continue
            out = []
            for s, x in st.bool_cases(t):
                if s is st:
                    s = st.copy()
                s.mem = dict(s.mem)
                s.mem[k] = self.put_bool(v, t, I(int(x)))
                out += self.split_bools(s)
            return out
        return [st]

    def some_cond(self, st, v, ty, d):
        t = self.p.types[ty]
        if t['k'] == 'bool':
            n = st.norm(v)
            return v if v.op in ('not', 'ge0', 'eq0', 'band_', 'bor_') and n.op != 'int' else None
        if d > 0 and v.op == 'agg' and t['k'] in ('struct', 'tuple', 'closure') and v.a[0] is not None:
            for x, f in zip(v.a[2], self.p.fields(v.a[0]) or []):
                r = self.some_cond(st, x, f, d - 1)
                if r is not None:
                    return r
        return None

    def put_bool(self, v, t, x):
        if v is t:
            return x
        if v.op == 'agg':
            return mk('agg', v.a[0], v.a[1], tuple(self.put_bool(y, t, x) for y in v.a[2]), ty=v.ty)
        return v

    def bshape(self, st, v, ty, d):
        """known booleans (and known variants of opaque enums) inside a value"""
        t = self.p.types[ty]
        if t['k'] == 'bool':
            n = st.norm(v)
            return n.a[0] if n.op == 'int' else None
        if t['k'] == 'enum' and v.op != 'agg':
            dd = st.eqc.get(mk('discr', v)) if ('discr', v) else None
            return ('d', dd) if dd is not None else None
        if d > 0 and v.op == 'agg' and t['k'] in ('struct', 'tuple', 'closure') and v.a[0] is not None:
            fs = self.p.fields(v.a[0])
            r = tuple(self.bshape(st, x, f, d - 1) for x, f in zip(v.a[2], fs or []))
            return r if any(x is not None for x in r) else None
        return None

    # ---- joins
    def join(self, ss, ctx, old=False):
        first = ss[0]
        out = State()
        out.ev = first.ev
        phis = {}
        roots = set(first.mem)
        for s in ss[1:]:
            roots &= set(s.mem)
        # symbolic roots that only some states have materialised
        extra = set()
        for s in ss:
            for r in s.mem:
                if r[0] in ('S', 'V', 'K') and r not in roots:
                    extra.add(r)
        for r in roots | extra:
            vals = [s.mem[r] if r in s.mem else self.default(s, r) for s in ss]
            ty = self.local_ty(r) if r[0] == 'L' else (vals[0].ty)
            out.mem[r] = self.jv(ss, vals, (r,), ty, ctx, phis)
        gk = set(first.ghost)
        for s in ss[1:]:
            gk &= set(s.ghost)
        for k in gk:
            vals = [s.ghost[k] for s in ss]
            if isinstance(vals[0], T):
                out.ghost[k] = self.jv(ss, vals, (('G', k),), None, ctx, phis, grng=(0, None))
            elif all(v == vals[0] for v in vals):
                out.ghost[k] = vals[0]
        self.join_constraints(ss, out, phis, old)
        return out

    def jv(self, ss, vals, loc, ty, ctx, phis, grng=None):
        v0 = vals[0]
        if all(v is v0 for v in vals):
            # a phi of this very loop that all agree on is still that phi
            if v0.op == 'phi' and v0.a[0] is ctx:
                phis[v0] = vals
            return v0
        if all(v.op == 'agg' for v in vals) and all(v.a[1] == v0.a[1] and len(v.a[2]) == len(v0.a[2]) for v in vals):
            aty = v0.a[0] if v0.a[0] is not None else ty
            fs = self.p.fields(aty, v0.a[1]) if aty is not None else None
            return mk('agg', aty, v0.a[1], tuple(self.jv(ss, [v.a[2][i] for v in vals], loc + (v0.a[1], i), fs[i] if fs and i < len(fs) else None, ctx, phis) for i in range(len(v0.a[2]))), ty=aty)
        if all(v.op in ('agg',) or v.op == 'phi' or v.op == 'fld' or v.op == 'deref' for v in vals) and ty is not None and self.p.tk(ty) in ('struct', 'tuple') and any(v.op == 'agg' for v in vals) and self.p.types[ty].get('path') not in ('std::vec::Vec', 'std::boxed::Box', 'std::string::String'):
            fs = self.p.fields(ty)
            return mk('agg', ty, 0, tuple(self.jv(ss, [self.proj(s, v, ('f', 0, i, f)) for s, v in zip(ss, vals)], loc + (0, i), f, ctx, phis) for i, f in enumerate(fs)), ty=ty)
        if all(v.op == 'slice' for v in vals) and all(v.a[0] == v0.a[0] and v.a[1] == v0.a[1] for v in vals):
            return mk('slice', v0.a[0], v0.a[1], self.jv(ss, [v.a[2] for v in vals], loc + ('off',), self.p.strid.get('usize'), ctx, phis), self.jv(ss, [v.a[3] for v in vals], loc + ('len',), self.p.strid.get('usize'), ctx, phis))
        if all(v.op == 'slice' and v.a[0][0] == 'C' and v.a[1] == () and v.a[2] == v0.a[2] and self.split_like(v.a[0][1], v0.a[0][1]) and v.a[3] is self.length(v.a[0][1]) for v in vals):
            c0 = v0.a[0][1]
            na = [x if all(v.a[0][1].a[i] is x for v in vals) else self.jv(ss, [v.a[0][1].a[i] for v in vals], loc + ('part', i), self.p.strid.get('usize'), ctx, phis) for i, x in enumerate(c0.a)]
            for x in na:
                if isinstance(x, T) and x.op == 'phi' and x.a[0] is ctx and x not in phis:
                    phis[x] = [x] * len(vals)
            part = mk(c0.op, *na, ty=c0.ty)
            return mk('slice', ('C', part), (), v0.a[2], self.length(part))
        if all(v.op == 'ref' for v in vals) and all(v.a[0] == v0.a[0] and len(v.a[1]) == len(v0.a[1]) for v in vals):
            path = []
            ok = True
            for i, es in enumerate(zip(*[v.a[1] for v in vals])):
                if all(e == es[0] for e in es):
                    path.append(es[0])
                elif all(e[0] == 'i' for e in es):
                    path.append(('i', self.jv(ss, [e[1] for e in es], loc + ('idx', i), self.p.strid.get('usize'), ctx, phis)))
                else:
                    ok = False
            if ok:
                return mk('ref', v0.a[0], tuple(path))
        if all(v.op == 'vec' for v in vals) or all(v.op == 'box' for v in vals):
            vty = v0.ty if ty is None else ty
            cty = (self.content_ty(vty) if vty is not None and self.p.tk(vty) == 'struct' else None) or v0.a[0].ty
            return mk(v0.op, self.jv(ss, [v.a[0] for v in vals], loc + ('@',), cty, ctx, phis), ty=v0.ty if v0.ty is not None else ty)
        if all(v.op == v0.op and len(v.a) == len(v0.a) for v in vals) and v0.op in ('iter', 'adapt', 'map', 'mapiter', 'fut', 'range'):
            na = []
            ok = True
            for i, es in enumerate(zip(*[v.a for v in vals])):
                if all(e is es[0] or e == es[0] for e in es):
                    na.append(es[0])
                    if isinstance(es[0], T) and es[0].op == 'phi' and es[0].a[0] is ctx:
                        phis[es[0]] = list(es)
                elif all(isinstance(e, T) for e in es):
                    na.append(self.jv(ss, list(es), loc + ('a', i), self.p.strid.get('usize') if v0.op in ('iter', 'range') else None, ctx, phis))
                else:
                    ok = False
            if ok:
                return mk(v0.op, *na, ty=v0.ty)
        r = self.p.irange(ty) if ty is not None else None
        if r is None and all(rng(v)[0] is not None and rng(v)[0] >= 0 for v in vals):
            r = (0, USIZE) if ty is None else None
        if r is None and grng:
            r = (0, USIZE)
        if ty is None:
            for v in vals:
                if v.ty is not None:
                    ty = v.ty
        phi = mk('phi', ctx, loc, ty=ty, rng=r)
        phis[phi] = vals
        return phi

    def split_like(self, x, y):
        return isinstance(x, T) and x.op == y.op == 'splitpart' and x.a[:3] == y.a[:3]

    def join_constraints(self, ss, out, phis, old):
        # value of each phi in each state; sequence phis also carry their length
        maps = [dict() for _ in ss]
        ints = []
        for p, vals in phis.items():
            for m, v in zip(maps, vals):
                m[p] = v
            if p.lo is not None or (p.ty is not None and self.p.irange(p.ty)):
                ints.append(p)
        lens = []
        for p, vals in phis.items():
            if p not in ints and p.ty is not None and self.p.tk(p.ty) in ('slice', 'str'):
                l = mk('len', p, rng=(0, ISIZE))
                lens.append(l)
                for m, v in zip(maps, vals):
                    m[l] = self.length(v)
        ips = ints + lens
        newphi = [p for p in ips if not (old and maps[0][p] is p or (p.op == 'len' and maps[0][p] is p))]
        memos = [{} for _ in ss]

        def at(j, t):
            return subst(t, maps[j], memos[j])
        cands = set()
        # facts of the first state (for loop heads: the old head) always are candidates
        stale = set(phis)
        for j, s in enumerate(ss):
            if j > 0 and not newphi:
                break
            inv = {}
            for p in ips:
                c, d = lin(maps[j][p])
                if len(d) == 1:
                    (a, v), = d.items()
                    if v == 1:
                        inv.setdefault(a, []).append(sub(p, I(c)))
                if not d and p in newphi:
                    cands.add(con(mklin(-c, {p: 1})))
                    cands.add(con(mklin(c, {p: -1})))
            for f in s.facts:
                fl = mklin(f[0], dict(f[1]))
                opts = [fl]
                for a, _ in f[1]:
                    if a in inv:
                        nxt = []
                        for o in opts:
                            nxt.append(o)
                            for e in inv[a][:4]:
                                c, d = lin(o)
                                if a in d:
                                    k = d.pop(a)
                                    nxt.append(add(mklin(c, d), mulc(e, k)))
                        opts = nxt[:24]
                for o in opts:
                    if o.op != 'int':
                        cands.add(con(o))
            if newphi:
                for i, p in enumerate(ips):
                    for q in ips[i + 1:]:
                        if p not in newphi and q not in newphi:
                            continue
                        d = s.norm(sub(maps[j][p], maps[j][q]))
                        if d.op == 'int':
                            l = addc(sub(p, q), -d.a[0])
                            cands.add(con(l))
                            cands.add(con(neg(l)))
                # relations with unchanged atoms (lengths and bounds)
                atoms = set()
                for f in s.facts:
                    for a, _ in f[1]:
                        if not (tsyms(a) & stale) and a not in inv:
                            atoms.add(a)
                for v in list(out.mem.values()):
                    for a in self.lenatoms(s, v):
                        if not (tsyms(a) & stale):
                            atoms.add(a)
                for p in newphi:
                    v = maps[j][p]
                    for a in atoms:
                        d = sub(v, a)
                        if d.op == 'int':
                            l = addc(sub(p, a), -d.a[0])
                            cands.add(con(l))
                            cands.add(con(neg(l)))
                        else:
                            cands.add(con(sub(a, p)))
                            cands.add(con(sub(p, a)))
                    for b in (1, 63, 255, 65535, 0xffffffff):
                        if p.hi is None or p.hi > b:
                            cands.add(con(addc(neg(p), b)))
                    # guards: atoms of v itself
                    c, d = lin(v)
                    for a in d:
                        if a not in stale and not (tsyms(a) & stale):
                            cands.add(con(addc(sub(p, a), -c)))
                            cands.add(con(addc(sub(a, p), c)))
        keep = set()
        for f in cands:
            fl = mklin(f[0], dict(f[1]))
            if fl.op == 'int':
                continue
            r = rng(fl)
            if r[0] is not None and r[0] >= 0:
                continue
            if all(s.entails(at(j, fl)) for j, s in enumerate(ss)):
                keep.add(f)
        out.facts = frozenset(keep)

        def same_under(k):
            return at(0, k)
        for k, v in ss[0].eqc.items():
            ok = True
            for j, s in enumerate(ss):
                x = s.norm(at(j, k))
                if not (x.op == 'int' and x.a[0] == v):
                    ok = False
                    break
            if ok:
                out.eqc[k] = v
        for k, (m, v) in ss[0].kb.items():
            ok = True
            for j, s in enumerate(ss):
                kk = at(j, k)
                if kk.op == 'int':
                    if (kk.a[0] & m) != v:
                        ok = False
                elif not (kk in s.kb and (s.kb[kk][0] & m) == m and (s.kb[kk][1] & m) == v):
                    ok = False
                if not ok:
                    break
            if ok:
                out.kb[k] = (m, v)
        nq = set()
        for x in ss[0].neq:
            if all(s.truth(eq0(at(j, x))) is False for j, s in enumerate(ss)):
                nq.add(x)
        out.neq = frozenset(nq)

    def lenatoms(self, s, v, d=3):
        out = set()
        if v.op == 'slice':
            for a in lin(v.a[3])[1]:
                out.add(a)
            for a in lin(v.a[2])[1]:
                out.add(a)
        elif v.op == 'agg' and d > 0:
            for x in v.a[2]:
                out |= self.lenatoms(s, x, d - 1)
        elif v.op in ('iter', 'adapt', 'range') and d > 0:
            for x in v.a:
                if isinstance(x, T):
                    if x.op in ('lin', 'len', 'sym', 'phi', 'fld', 'elem') and x.lo is not None:
                        out |= set(lin(x)[1])
                    else:
                        out |= self.lenatoms(s, x, d - 1)
        elif v.ty is not None and self.p.types[v.ty]['k'] == 'ref' and self.p.tk(self.p.types[v.ty]['e']) in ('slice', 'str') and v.op not in ('slice', 'ref'):
            for a in lin(self.slice_of(s, v)[3])[1]:
                out.add(a)
        return out

    # ---- entry points
    def entry(self, b, args=None, st=None, name=None):
        st = st or State()
        use(self.p)
        # terms are shared by all interpreters: names say which one, and which function, they belong to
        name = '%s#%d' % (name or 'root', self.serial)
        uid = mk('frame', None, name, b['id'])
        for n in range(len(b['locals'])):
            self._ldef[(uid, n)] = b['locals'][n]
        fr = Frame(uid, b, None, None)
        if args is None:
            args = [self.fresh_sym('a%d#%d.%s' % (k, self.serial, b['id']), b['locals'][k + 1]) for k in range(b['argc'])]
        return args, self.invoke(st, None, b, args, (fr, name, b.get('span')))


def _subst_root(k, m, memo):
    if k[0] == 'L':
        return k
    return subst(k, m, memo)


class LoopRec:
    __slots__ = ('fr', 'lkey', 'shp', 'head', 'back', 'evs', 'cnt')

    def __init__(self, fr, lkey, shp, head, back, evs, cnt):
        self.fr, self.lkey, self.shp, self.head, self.back, self.evs, self.cnt = fr, lkey, shp, head, back, evs, cnt


class CallCtx:
    __slots__ = ('ip', 'f', 'args', 'atys', 'dty', 'site', 'fr')

    def __init__(self, ip, f, args, atys, dty, site, fr):
        self.ip, self.f, self.args, self.atys, self.dty, self.site, self.fr = ip, f, args, atys, dty, site, fr

    def name(self):
        return self.f.get('rpath') or self.f['path']

    def panic(self, st, kind):
        fr = self.fr if self.fr else self.site[0]
        self.ip.panic(st, fr, kind, self.site[2])


    def targ(self, k):
        return self.f['args'][k]
