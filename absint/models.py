"""Models of the library functions the analysed crates call: each returns the possible (state, result) pairs."""
import re
from terms import *
from state import State
from interp import Interp, INTR, WID, Pl, CallCtx, Unsupported
from paths import norm

M = {}          # normalised path -> model


def m(*names):
    def d(f):
        for n in names:
            M[n] = f
        return f
    return d


# ---- helpers ----------------------------------------------------------------------------------
def freshen(c, st, t):
    """t is about to denote a new value: older uses of the term become a different one"""
    ip = c.ip
    hit = False
    for v in st.mem.values():
        if isinstance(v, T) and t in tsyms(v):
            hit = True
            break
    if not hit:
        for k in st.mem:
            if k[0] != 'L' and any(isinstance(x, T) and t in tsyms(x) for x in k):
                hit = True
                break
    if not hit:
        for f in st.facts:
            if any(t in tsyms(a) for a, _ in f[1]):
                hit = True
                break
    if not hit:
        hit = any(t in tsyms(k) for k in st.eqc) or any(t in tsyms(k) for k in st.kb) or any(t in tsyms(k) for k in st.neq)
    if not hit:
        return
    g, chain = t, []
    # shift the chain t -> prev(t) -> prev(prev(t)); a few generations are kept apart, the rest is merged into one
    mp = {}
    for k in range(3):
        n = mk('ret', 'prev', g, ty=g.ty, rng=(g.lo, g.hi) if g.lo is not None else None)
        n.syms = frozenset((n,))
        mp[g] = n
        g = n
    ip.rename(st, mp)


def fresh(c, st, tag, ty=None, rng=None):
    ip = c.ip
    t = mk('ret', c.site[0].uid, c.site[1], tag, ty=ty, rng=rng or (ip.p.irange(ty) if ty is not None else None))
    t.syms = frozenset((t,))
    freshen(c, st, t)
    return t


def opaque_result(c, st, tag=None):
    r = fresh(c, st, tag or c.name(), c.dty)
    c.ip.unk.add(r)
    return [(st, r)]


def unit(c):
    return c.ip.zst(c.dty) if c.dty is not None else mk('agg', None, 0, ())


def enumv(ty, var, *fs):
    return mk('agg', ty, var, tuple(fs), ty=ty)


def some(ty, v):
    return enumv(ty, 1, v)


def none(ty):
    return enumv(ty, 0)


def ok(ty, v):
    return enumv(ty, 0, v)


def err(ty, v):
    return enumv(ty, 1, v)


def fields(c, ty, var):
    return c.ip.p.fields(ty, var)


def split(st, cond):
    """states where cond holds / does not hold"""
    out = []
    t = st.truth(cond)
    if t is not False:
        a = st.copy() if t is None else st
        if t is True or a.assume(cond, True):
            out.append((True, a))
    if t is not True:
        b = st.copy() if t is None else st
        if t is False or b.assume(cond, False):
            out.append((False, b))
    return out


def conj(ip, cs):
    r = TRUE
    for x in cs:
        r = ip.andb(r, x)
    return r


def constbytes(c):
    if c.op == 'seq' and all(p[0] == 'o' and p[1].op == 'int' for p in c.a[0]):
        return bytes(p[1].a[0] & 255 for p in c.a[0]) if all(0 <= p[1].a[0] < 256 for p in c.a[0]) else None
    return None


def strval(c, st, v):
    """constant bytes of a &str/&[u8] value, if known"""
    ct, off, n = c.ip.slice_content(st, v)
    s = c.ip.subseq(st, ct, off, n)
    return constbytes(s)


def mkstr(ip, bs, ty=None):
    ct = mk('seq', tuple(('o', I(x)) for x in bs), ty=ip.p.strid.get('str'))
    return mk('slice', ('C', ct), (), I(0), I(len(bs)), ty=ty)


def deref_load(c, st, v, ety=None):
    pl = c.ip.deref(st, v, ety)
    return c.ip.read(st, pl)


def pointee(c, k):
    ty = c.atys[k]
    return c.ip.p.types[ty].get('e') if ty is not None else None


def vplace(c, st, v, k=0):
    """(root, path) of the content of the Vec/String/Box a pointer points to"""
    pl = c.ip.deref(st, v, pointee(c, k))
    # make sure the opaque value knows its type
    x = c.ip.load(st, pl.root, pl.path)
    if x.ty is None and pointee(c, k) is not None:
        x.ty = pointee(c, k)
    return pl.root, pl.path + (('v',),)


def value_eq(ip, st, x, y, ty=None):
    """boolean term: equality of two values"""
    x, y = st.norm(x), st.norm(y)
    if x is y:
        return TRUE
    if x.op == 'agg' and y.op == 'agg':
        if x.a[1] != y.a[1]:
            return FALSE
        fs = ip.p.fields(x.a[0], x.a[1]) if x.a[0] is not None else None
        return conj(ip, [value_eq(ip, st, a, b, fs[i] if fs else None) for i, (a, b) in enumerate(zip(x.a[2], y.a[2]))])
    if x.op in ('vec', 'box') and y.op in ('vec', 'box'):
        return content_eq(ip, st, x.a[0], y.a[0])
    if (x.op in ('int', 'lin', 'bits') or x.lo is not None) and (y.op in ('int', 'lin', 'bits') or y.lo is not None):
        return eq0(sub(x, y))
    if ty is not None and ip.p.irange(ty):
        return eq0(sub(x, y))
    ety = next((t for t in (ty, x.ty, y.ty, x.a[0] if x.op == 'agg' else None, y.a[0] if y.op == 'agg' else None) if t is not None), None)
    if ety is not None and ip.p.tk(ety) == 'enum' and ip.p.types[ety]['v'] and not any(v['f'] for v in ip.p.types[ety]['v']):
        return eq0(sub(ip.discr(st, x, ety), ip.discr(st, y, ety)))
    return mk('peq', *sorted((x, y), key=lambda t: t.id), rng=(0, 1))


def content_eq(ip, st, a, b):
    if a is b:
        return TRUE
    if constbytes(b) is None and constbytes(a) is not None:
        a, b = b, a
    kb = constbytes(b)
    la, lb = ip.length(a), ip.length(b)
    if a.op == 'seq' and b.op == 'seq' and all(p[0] == 'o' for p in a.a[0] + b.a[0]):
        if len(a.a[0]) != len(b.a[0]):
            return FALSE
        return conj(ip, [value_eq(ip, st, p[1], q[1]) for p, q in zip(a.a[0], b.a[0])])
    if kb is not None and len(kb) <= 40:
        return conj(ip, [eq0(sub(la, I(len(kb))))] + [eq0(addc(ip.elem(st, a, I(i)), -x)) for i, x in enumerate(kb)])
    return mk('peq', *sorted((a, b), key=lambda t: t.id), rng=(0, 1))


# ---- panics -----------------------------------------------------------------------------------
@m('core::panicking::panic', 'core::panicking::panic_fmt', 'core::panicking::assert_failed', 'core::panicking::panic_explicit', 'core::panicking::panic_display',
   'core::panicking::unreachable_display', 'core::panicking::unreachable_default_msg', 'core::panicking::panic_bounds_check', 'core::panicking::assert_failed_inner',
   'std::rt::panic_fmt', 'std::rt::begin_panic', 'std::rt::panic_display', 'std::option::unwrap_failed', 'std::option::expect_failed', 'core::option::unwrap_failed',
   'core::option::expect_failed', 'std::result::unwrap_failed', 'core::result::unwrap_failed', 'std::result::unwrap_failed::unwrap_failed_inner', 'core::slice::index::slice_index_fail',
   'core::slice::copy_from_slice_impl::len_mismatch_fail', 'core::num::from_ascii_bytes_radix_panic', 'core::panicking::panic_const', 'std::cell::panic_already_borrowed',
   'core::cell::panic_already_borrowed', 'core::cell::panic_already_mutably_borrowed', 'std::cell::panic_already_mutably_borrowed', 'core::str::slice_error_fail',
   'std::panicking::begin_panic', 'core::panicking::panic_str_2015', 'core::slice::index::slice_start_index_len_fail', 'core::slice::index::slice_end_index_len_fail')
def panic(c, st, *a):
    c.panic(st, 'call:' + c.name().split('::')[-1])
    return []


@m('std::process::exit', 'std::process::abort', 'core::intrinsics::abort', 'std::intrinsics::abort')
def p_exit(c, st, *a):
    c.panic(st, 'call:' + c.name().split('::')[-1])
    return []


@m('core::panicking::panic_nounwind_fmt', 'core::panicking::panic_nounwind', 'core::panicking::panic_nounwind_nobacktrace')
def panic_nounwind(c, st, *a):
    return []


@m('std::intrinsics::cold_path', 'std::intrinsics::assert_inhabited', 'std::intrinsics::assert_zero_valid', 'std::intrinsics::assert_mem_uninitialized_valid', 'std::hint::assert_unchecked',
   'core::ub_checks::maybe_is_nonoverlapping::runtime', 'std::mem::forget', 'std::mem::drop', 'std::hint::cold_path')
def noop(c, st, *a):
    if c.name() in ('std::mem::drop',):
        # the value's destructors run through drop glue only for workspace types
        if a and c.atys[0] is not None and c.ip.p.needs_local_drop(c.atys[0]):
            root = ('T', c.site[0].uid, c.site[1], 'drop')
            st.mem[root] = a[0]
            outs = c.ip.drop_val(st, c.fr or c.site[0], Pl(root, (), None, c.atys[0]), c.atys[0], c.site)
            return [(s, unit(c)) for s in outs]
    return [(st, unit(c))]


@m('std::intrinsics::unlikely', 'std::intrinsics::likely', 'std::hint::likely', 'std::hint::unlikely', 'std::hint::black_box', 'std::convert::identity')
def ident(c, st, x, *r):
    return [(st, x)]


# ---- integers ---------------------------------------------------------------------------------
@m('std::intrinsics::bswap')
def bswap(c, st, x):
    w = WID[c.ip.p.ts(c.dty)] // 8
    return [(st, from_bytes(list(reversed(bytes_of(st.norm(x), w)))))]


@m('std::intrinsics::ctpop')
def ctpop(c, st, x):
    return [(st, I(bin(x.a[0]).count('1')) if x.op == 'int' else mk('ctpop', x, rng=(0, 128)))]


@m('std::intrinsics::size_of_val', 'std::mem::size_of_val')
def size_of_val(c, st, x):
    ty = pointee(c, 0)
    if ty is not None and c.ip.p.tk(ty) in ('slice', 'str'):
        e = c.ip.elem_type(mk('sizeoftmp', ty, ty=ty))
        n = c.ip.slice_of(st, x, ty)[3]
        sz = sizeof(c.ip, e)
        return [(st, mulc(n, sz))] if sz is not None else NotImplemented
    sz = sizeof(c.ip, ty)
    return [(st, I(sz))] if sz is not None else NotImplemented


@m('std::mem::size_of', 'std::mem::align_of', 'std::intrinsics::size_of', 'std::intrinsics::align_of', 'std::intrinsics::min_align_of')
def size_of(c, st):
    ty = c.targ(0)
    if 'align' in c.name():
        return NotImplemented
    sz = sizeof(c.ip, ty)
    return [(st, I(sz))] if sz is not None else NotImplemented


@m('std::intrinsics::wrapping_add', 'std::intrinsics::wrapping_sub', 'std::intrinsics::wrapping_mul')
def wrapping(c, st, x, y):
    op = {'wrapping_add': 'Add', 'wrapping_sub': 'Sub', 'wrapping_mul': 'Mul'}[c.name().split('::')[-1]]
    return [(st, c.ip.binop(st, op, x, y, c.dty))]


def satop(c, st, v, lo, hi):
    """clamp v into [lo, hi]"""
    out = []
    for t, s in split(st, ge0(addc(v, -lo))):
        if not t:
            out.append((s, I(lo)))
            continue
        for t2, s2 in split(s, ge0(addc(neg(v), hi))):
            out.append((s2, v if t2 else I(hi)))
    return out


@m('std::intrinsics::saturating_add', 'std::intrinsics::saturating_sub')
def saturating(c, st, x, y):
    lo, hi = INTR[c.ip.p.ts(c.dty)]
    return satop(c, st, add(x, y) if 'add' in c.name() else sub(x, y), lo, hi)


def minmax(c, st, x, y, ismin):
    out = []
    for t, s in split(st, ge0(sub(y, x))):
        out.append((s, (x if t else y) if ismin else (y if t else x)))
    return out


@m('std::cmp::min', 'std::cmp::max', 'std::cmp::Ord::min', 'std::cmp::Ord::max')
def cmp_minmax(c, st, x, y):
    if c.ip.p.irange(c.dty) is None:
        return NotImplemented
    return minmax(c, st, x, y, 'min' in c.name().split('::')[-1])


for _n in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'isize', 'i8', 'i16', 'i64'):
    for _o in ('min', 'max'):
        M['std::cmp::impls::<impl std::cmp::Ord for %s>::%s' % (_n, _o)] = cmp_minmax


# ---- mem / ptr --------------------------------------------------------------------------------
@m('std::mem::replace')
def mem_replace(c, st, p, v):
    pl = c.ip.deref(st, p, pointee(c, 0))
    old = c.ip.read(st, pl)
    c.ip.assign(st, pl, v)
    return [(st, old)]


@m('std::mem::swap')
def mem_swap(c, st, p, q):
    a, b = c.ip.deref(st, p, pointee(c, 0)), c.ip.deref(st, q, pointee(c, 1))
    x, y = c.ip.read(st, a), c.ip.read(st, b)
    c.ip.assign(st, a, y)
    c.ip.assign(st, b, x)
    return [(st, unit(c))]


@m('std::mem::take')
def mem_take(c, st, p):
    ty = pointee(c, 0)
    d = default_value(c.ip, ty)
    if d is None:
        return NotImplemented
    pl = c.ip.deref(st, p, ty)
    old = c.ip.read(st, pl)
    c.ip.assign(st, pl, d)
    return [(st, old)]


def default_value(ip, ty):
    t = ip.p.types[ty]
    if t['k'] in ('int', 'uint', 'bool', 'char'):
        return I(0)
    if t.get('path') in ('std::vec::Vec', 'std::string::String'):
        return mk('vec', ip.emptyseq(ip.content_ty(ty)), ty=ty)
    if t.get('path') == 'std::option::Option':
        return none(ty)
    return None


@m('std::ptr::read', 'std::ptr::read_unaligned', 'std::intrinsics::read_via_copy', 'std::ptr::const_ptr::<impl *const T>::read', 'std::ptr::mut_ptr::<impl *mut T>::read')
def ptr_read(c, st, p):
    return [(st, deref_load(c, st, p, pointee(c, 0)))]


@m('std::ptr::write', 'std::intrinsics::write_via_move')
def ptr_write(c, st, p, v):
    c.ip.assign(st, c.ip.deref(st, p, pointee(c, 0)), v)
    return [(st, unit(c))]


# ---- Cell -------------------------------------------------------------------------------------
def cellpath(ip, ty):
    """path from a Cell<T> to its T"""
    p = []
    for _ in range(2):
        f = ip.p.fields(ty)[0]
        p.append(('f', None, 0, f))
        ty = f
    return tuple(p), ty


def cellpl(c, st, p):
    ty = pointee(c, 0)
    pl = c.ip.deref(st, p, ty)
    pa, t = cellpath(c.ip, ty)
    return Pl(pl.root, pl.path + pa, None, t)


@m('std::cell::Cell::get')
def cell_get(c, st, p):
    return [(st, c.ip.read(st, cellpl(c, st, p)))]


@m('std::cell::Cell::set')
def cell_set(c, st, p, v):
    c.ip.assign(st, cellpl(c, st, p), v)
    return [(st, unit(c))]


@m('std::cell::Cell::replace')
def cell_replace(c, st, p, v):
    pl = cellpl(c, st, p)
    old = c.ip.read(st, pl)
    c.ip.assign(st, pl, v)
    return [(st, old)]


@m('std::cell::Cell::new')
def cell_new(c, st, v):
    return [(st, c.ip.wrap1(c.dty, v) if False else cellwrap(c.ip, c.dty, v))]


def cellwrap(ip, ty, v):
    f = ip.p.fields(ty)
    inner = ip.p.fields(f[0])
    u = mk('agg', f[0], 0, (v,) + tuple(ip.zst(x) for x in inner[1:]), ty=f[0])
    return mk('agg', ty, 0, (u,) + tuple(ip.zst(x) for x in f[1:]), ty=ty)


@m('std::cell::Cell::into_inner')
def cell_into(c, st, v):
    pa, t = cellpath(c.ip, c.atys[0])
    for e in pa:
        v = c.ip.proj(st, v, e)
    return [(st, v)]


@m('<std::cell::Cell as std::clone::Clone>::clone')
def cell_clone(c, st, p):
    return [(st, deref_load(c, st, p, pointee(c, 0)))]


# ---- bytemuck ---------------------------------------------------------------------------------
def sizeof(ip, ty):
    if ty is None:
        return None
    t = ip.p.types[ty]
    s = t['s']
    if s in WID:
        return 1 if s == 'bool' else WID[s] // 8
    if t['k'] == 'array':
        e = sizeof(ip, t['e'])
        return None if e is None or t['n'] is None else e * t['n']
    if t['k'] in ('struct', 'tuple'):
        if t.get('path') in ('std::vec::Vec', 'std::boxed::Box', 'std::string::String'):
            return None
        tot = 0
        al = set()
        for f in ip.p.fields(ty):
            x = sizeof(ip, f)
            if x is None:
                return None
            al.add(x)
            tot += x
        return tot if len(al - {0}) <= 1 or 'uwuhi' in (t.get('crate') or '') else None
    return None


def from_le(ip, st, ty, bs):
    """value of a plain-data type from its byte terms"""
    t = ip.p.types[ty]
    if t['s'] in WID:
        return from_bytes(bs)
    if t['k'] == 'array':
        e = sizeof(ip, t['e'])
        return mk('seq', tuple(('o', from_le(ip, st, t['e'], bs[i * e:(i + 1) * e])) for i in range(t['n'])), ty=ty)
    if t['k'] in ('struct', 'tuple'):
        out, p = [], 0
        for f in ip.p.fields(ty):
            n = sizeof(ip, f)
            out.append(from_le(ip, st, f, bs[p:p + n]))
            p += n
        return mk('agg', ty, 0, tuple(out), ty=ty)
    return None


def to_le(ip, st, ty, v):
    t = ip.p.types[ty]
    if t['s'] in WID:
        return bytes_of(st.norm(v), sizeof(ip, ty))
    if t['k'] == 'array':
        return [b for i in range(t['n']) for b in to_le(ip, st, t['e'], ip.elem(st, v, I(i)))]
    if t['k'] in ('struct', 'tuple'):
        return [b for i, f in enumerate(ip.p.fields(ty)) for b in to_le(ip, st, f, ip.proj(st, v, ('f', None, i, f)))]
    return None


def read_bytes(c, st, v, n):
    ct, off, _ = c.ip.slice_content(st, v)
    return [c.ip.elem(st, ct, addc(off, i)) for i in range(n)]


@m('bytemuck::pod_read_unaligned')
def pod_read(c, st, b):
    n = sizeof(c.ip, c.dty)
    if n is None:
        v = fresh(c, st, 'pod', c.dty)
        c.ip.emit(st, 'pod', v, b)
        return [(st, v)]
    out = []
    for t, s in split(st, eq0(addc(c.ip.slice_of(st, b)[3], -n))):
        if t:
            out.append((s, from_le(c.ip, s, c.dty, read_bytes(c, s, b, n))))
        else:
            c.panic(s, 'bytemuck size mismatch')
    return out


@m('bytemuck::bytes_of')
def bytes_of_m(c, st, p):
    ty = pointee(c, 0)
    n = sizeof(c.ip, ty)
    v = deref_load(c, st, p, ty)
    if n is None:
        ct = mk('podbytes', v, ty=c.ip.p.strid.get('[u8]'))
        return [(st, mk('slice', ('C', ct), (), I(0), c.ip.length(ct)))]
    ct = mk('seq', tuple(('o', b) for b in to_le(c.ip, st, ty, v)), ty=c.ip.p.strid.get('[u8]'))
    return [(st, mk('slice', ('C', ct), (), I(0), I(n)))]


@m('bytemuck::from_bytes_mut', 'bytemuck::from_bytes')
def from_bytes_mut(c, st, b):
    ty = c.ip.p.types[c.dty]['e']
    n = sizeof(c.ip, ty)
    if n is None:
        return NotImplemented
    out = []
    for t, s in split(st, eq0(addc(c.ip.slice_of(st, b)[3], -n))):
        if not t:
            c.panic(s, 'bytemuck size mismatch')
            continue
        v = from_le(c.ip, s, ty, read_bytes(c, s, b, n))
        sl = mk('slice', *c.ip.slice_of(s, b))
        root = ('V', sl, ty)
        s.mem[root] = v
        out.append((s, mk('ref', root, ())))
    return out


def view_store(ip, st, root, path, val):
    """a store through a typed view of a byte buffer changes the buffer"""
    sl, ty = root[1], root[2]
    bs = to_le(ip, st, ty, st.mem[root])
    r2, p2, off, n = sl.a
    c = ip.load(st, r2, p2)
    src = mk('seq', tuple(('o', b) for b in bs), ty=ip.p.strid.get('[u8]'))
    if c.op == 'wr' and c.a[1] is off and c.a[2] is n:
        c = c.a[0]
    ip.store(st, r2, p2, mk('wr', c, off, n, src, I(0), ty=c.ty))
    ip.emit(st, 'hdr', r2, p2, off, n, src)


@m('bytemuck::Zeroable::zeroed', 'std::mem::zeroed', 'bytemuck::zeroed')
def zeroed(c, st):
    n = sizeof(c.ip, c.dty)
    if n is None:
        return NotImplemented
    return [(st, from_le(c.ip, st, c.dty, [I(0)] * n))]


# ---- any --------------------------------------------------------------------------------------
@m('std::any::TypeId::of')
def typeid(c, st):
    t = c.targ(0)
    if c.ip.p.tk(t) == 'param':
        return [(st, mk('typeid?', c.ip.p.ts(t), ty=c.dty))]
    return [(st, mk('typeid', c.ip.p.ts(t), ty=c.dty))]


@m('<std::any::TypeId as std::cmp::PartialEq>::eq')
def typeid_eq(c, st, a, b):
    x, y = deref_load(c, st, a, pointee(c, 0)), deref_load(c, st, b, pointee(c, 1))
    if x.op == 'typeid' and y.op == 'typeid':
        return [(st, I(int(x is y)))]
    return [(st, mk('peq', *sorted((x, y), key=lambda t: t.id), rng=(0, 1)))]


# ---- slices -----------------------------------------------------------------------------------
def range_of(c, st, ity, v, n):
    """(start, end, conditions) for an index value of type ity into a sequence of length n"""
    ip = c.ip
    t = ip.p.types[ity]
    p = t.get('path') or ''
    us = ip.p.strid.get('usize')

    def f(k):
        return st.norm(ip.proj(st, v, ('f', None, k, us)))
    last = p.split('::')[-1]
    if last == 'RangeFull':
        return I(0), n, []
    if last == 'Range':
        a, b = f(0), f(1)
        return a, b, [ge0(sub(b, a)), ge0(sub(n, b))]
    if last == 'RangeTo':
        b = f(0)
        return I(0), b, [ge0(sub(n, b))]
    if last == 'RangeFrom':
        a = f(0)
        return a, n, [ge0(sub(n, a))]
    if last == 'RangeInclusive':
        a, b = f(0), addc(f(1), 1)
        return a, b, [ge0(sub(b, a)), ge0(sub(n, b))]
    if last == 'RangeToInclusive':
        b = addc(f(0), 1)
        return I(0), b, [ge0(sub(n, b))]
    return None


def do_index(c, st, sl, idx, ity, mode):
    """mode: 'panic' (Index) or 'get'; yields (state, pointer or None)"""
    ip = c.ip
    root, path, off, n = ip.slice_of(st, sl, pointee(c, 0))
    out = []
    if ip.p.ts(ity) == 'usize':
        for t, s in split(st, ge0(addc(sub(n, idx), -1))):
            if t:
                out.append((s, mk('ref', root, path + (('i', add(off, s.norm(idx))),))))
            elif mode == 'get':
                out.append((s, None))
            else:
                c.panic(s, 'index out of bounds')
        return out
    r = range_of(c, st, ity, idx, n)
    if r is None:
        return None
    a, b, conds = r
    cur = [st]
    for k in conds:
        nxt = []
        for s in cur:
            for t, s2 in split(s, k):
                if t:
                    nxt.append(s2)
                elif mode == 'get':
                    out.append((s2, None))
                else:
                    c.panic(s2, 'slice index out of range')
        cur = nxt
    for s in cur:
        out.append((s, ip.mkslice(root, path, add(off, a), sub(b, a))))
    return out


def index_ptr(c, st, v):
    """the indexed object as a slice pointer"""
    return v


@m('core::slice::index::<impl std::ops::Index for [T]>::index', 'core::slice::index::<impl std::ops::IndexMut for [T]>::index_mut', '<std::vec::Vec as std::ops::Index>::index',
   '<std::vec::Vec as std::ops::IndexMut>::index_mut', 'std::array::<impl std::ops::Index for [T; N]>::index', 'std::array::<impl std::ops::IndexMut for [T; N]>::index_mut',
   '<std::string::String as std::ops::Index>::index', 'core::str::traits::<impl std::ops::Index for str>::index')
def index(c, st, sl, idx):
    r = do_index(c, st, sl, idx, c.atys[1], 'panic')
    return NotImplemented if r is None else r


@m('core::slice::<impl [T]>::get', 'core::slice::<impl [T]>::get_mut', 'core::str::<impl str>::get')
def slice_get(c, st, sl, idx):
    r = do_index(c, st, sl, idx, c.atys[1], 'get')
    if r is None:
        return NotImplemented
    return [(s, none(c.dty) if v is None else some(c.dty, v)) for s, v in r]


@m('core::slice::<impl [T]>::get_unchecked', 'core::slice::<impl [T]>::get_unchecked_mut')
def slice_getu(c, st, sl, idx):
    return index(c, st, sl, idx)


@m('core::slice::<impl [T]>::first', 'core::slice::<impl [T]>::last', 'core::slice::<impl [T]>::first_mut', 'core::slice::<impl [T]>::last_mut')
def slice_first(c, st, sl):
    root, path, off, n = c.ip.slice_of(st, sl, pointee(c, 0))
    out = []
    for t, s in split(st, ge0(addc(n, -1))):
        i = off if 'first' in c.name() else addc(add(off, n), -1)
        out.append((s, some(c.dty, mk('ref', root, path + (('i', i),))) if t else none(c.dty)))
    return out


@m('core::slice::<impl [T]>::split_first', 'core::slice::<impl [T]>::split_last')
def slice_split_first(c, st, sl):
    ip = c.ip
    root, path, off, n = ip.slice_of(st, sl, pointee(c, 0))
    out = []
    for t, s in split(st, ge0(addc(n, -1))):
        if not t:
            out.append((s, none(c.dty)))
            continue
        tup = ip.p.fields(c.dty, 1)[0]
        if 'first' in c.name():
            v = (mk('ref', root, path + (('i', off),)), ip.mkslice(root, path, addc(off, 1), addc(n, -1)))
        else:
            v = (mk('ref', root, path + (('i', addc(add(off, n), -1)),)), ip.mkslice(root, path, off, addc(n, -1)))
        out.append((s, some(c.dty, mk('agg', tup, 0, v, ty=tup))))
    return out


@m('core::slice::<impl [T]>::split_at', 'core::slice::<impl [T]>::split_at_mut', 'core::str::<impl str>::split_at')
def slice_split_at(c, st, sl, mid):
    ip = c.ip
    root, path, off, n = ip.slice_of(st, sl, pointee(c, 0))
    out = []
    for t, s in split(st, ge0(sub(n, mid))):
        if t:
            out.append((s, mk('agg', c.dty, 0, (ip.mkslice(root, path, off, mid), ip.mkslice(root, path, add(off, mid), sub(n, mid))), ty=c.dty)))
        else:
            c.panic(s, 'split_at out of range')
    return out


@m('core::slice::<impl [T]>::split_at_checked')
def slice_split_at_checked(c, st, sl, mid):
    ip = c.ip
    root, path, off, n = ip.slice_of(st, sl, pointee(c, 0))
    out = []
    for t, s in split(st, ge0(sub(n, mid))):
        if t:
            tup = ip.p.fields(c.dty, 1)[0]
            out.append((s, some(c.dty, mk('agg', tup, 0, (ip.mkslice(root, path, off, mid), ip.mkslice(root, path, add(off, mid), sub(n, mid))), ty=tup))))
        else:
            out.append((s, none(c.dty)))
    return out


@m('core::slice::<impl [T]>::len', 'std::vec::Vec::len', 'core::str::<impl str>::len', 'std::string::String::len')
def slice_len(c, st, sl):
    return [(st, c.ip.slice_of(st, sl, pointee(c, 0))[3])]


@m('core::slice::<impl [T]>::is_empty', 'std::vec::Vec::is_empty', 'core::str::<impl str>::is_empty', 'std::string::String::is_empty')
def slice_is_empty(c, st, sl):
    return [(st, eq0(st.norm(c.ip.slice_of(st, sl, pointee(c, 0))[3])))]


def do_copy(c, st, dst, src, kind='copy'):
    ip = c.ip
    root, path, off, n = ip.slice_of(st, dst, pointee(c, 0))
    sc, so, sn = ip.slice_content(st, src)
    write_content(ip, st, root, path, off, n, sc, so)
    ip.emit(st, kind, root, path, off, n, sc, so)


def write_content(ip, st, root, path, off, n, sc, so):
    old = ip.load(st, root, path)
    if st.entails_eq(n, I(0)):
        return
    if off.op == 'int' and off.a[0] == 0 and st.entails_eq(n, ip.length(old)):
        new = ip.subseq(st, sc, so, n)
        if new.ty is None or old.ty is not None:
            new = mk(new.op, *new.a, ty=new.ty)
    else:
        new = mk('wr', old, off, n, sc, so, ty=old.ty)
    ip.store(st, root, path, new)


@m('core::slice::<impl [T]>::copy_from_slice', 'core::slice::<impl [T]>::clone_from_slice')
def copy_from_slice(c, st, dst, src):
    n, k = c.ip.slice_of(st, dst, pointee(c, 0))[3], c.ip.slice_of(st, src, pointee(c, 1))[3]
    out = []
    for t, s in split(st, eq0(sub(n, k))):
        if t:
            do_copy(c, s, dst, src)
            out.append((s, unit(c)))
        else:
            c.panic(s, 'copy_from_slice length mismatch')
    return out


@m('core::slice::<impl [T]>::fill')
def slice_fill(c, st, dst, v):
    ip = c.ip
    root, path, off, n = ip.slice_of(st, dst, pointee(c, 0))
    rep = mk('rep', v, n, ty=None)
    write_content(ip, st, root, path, off, n, rep, I(0))
    ip.emit(st, 'copy', root, path, off, n, rep, I(0))
    return [(st, unit(c))]


@m('core::slice::<impl [T]>::starts_with', 'core::slice::<impl [T]>::ends_with')
def starts_with(c, st, a, b):
    ip = c.ip
    kb = strval(c, st, b)
    ca, oa, na = ip.slice_content(st, a)
    if kb is None:
        cb, ob, nb = ip.slice_content(st, b)
        return [(st, mk(c.name().split('::')[-1], ip.subseq(st, ca, oa, na), ip.subseq(st, cb, ob, nb), rng=(0, 1)))]
    base = oa if 'starts' in c.name() else sub(add(oa, na), I(len(kb)))
    out = []
    for t, s in split(st, ge0(addc(na, -len(kb)))):
        if not t:
            out.append((s, FALSE))
        else:
            out.append((s, conj(ip, [s.norm(eq0(addc(ip.elem(s, ca, addc(base, i)), -x))) for i, x in enumerate(kb)])))
    return out


@m('core::str::<impl str>::starts_with', 'core::str::<impl str>::ends_with')
def str_starts_with(c, st, a, b):
    ip = c.ip
    kb = patbytes(c, st, b, 1)
    ca, oa, na = ip.slice_content(st, a)
    if kb is None:
        return [(st, mk('strpat', c.name().split('::')[-1], ip.subseq(st, ca, oa, na), b, rng=(0, 1)))]
    base = oa if 'starts' in c.name() else sub(add(oa, na), I(len(kb)))
    out = []
    for t, s in split(st, ge0(addc(na, -len(kb)))):
        if not t:
            out.append((s, FALSE))
        else:
            out.append((s, conj(ip, [s.norm(eq0(addc(ip.elem(s, ca, addc(base, i)), -x))) for i, x in enumerate(kb)])))
    return out


def patbytes(c, st, pat, k):
    """constant bytes of a &str or ASCII char pattern"""
    ty = c.atys[k]
    if ty is not None and c.ip.p.ts(ty) == 'char':
        return bytes([pat.a[0]]) if pat.op == 'int' and pat.a[0] < 128 else None
    if ty is not None and c.ip.p.tk(ty) == 'ref' and c.ip.p.tk(c.ip.p.types[ty]['e']) == 'str':
        return strval(c, st, pat)
    return None


@m('core::slice::<impl [T]>::as_ptr', 'core::slice::<impl [T]>::as_mut_ptr', 'std::vec::Vec::as_slice', 'std::vec::Vec::as_mut_slice', 'core::str::<impl str>::as_bytes', 'std::string::String::as_bytes',
   'std::string::String::as_str', '<std::vec::Vec as std::ops::Deref>::deref', '<std::vec::Vec as std::ops::DerefMut>::deref_mut', '<std::string::String as std::ops::Deref>::deref', '<std::string::String as std::ops::DerefMut>::deref_mut', 'std::string::String::as_mut_str',
   'std::slice::<impl std::borrow::Borrow for std::vec::Vec>::borrow', 'core::str::<impl std::convert::AsRef for str>::as_ref', 'core::slice::<impl [T]>::as_ref',
   '<std::vec::Vec as std::convert::AsRef>::as_ref', '<std::string::String as std::convert::AsRef>::as_ref', '<[T] as std::convert::AsRef>::as_ref', 'std::array::<impl [T; N]>::as_slice',
   'std::array::<impl std::convert::AsRef for [T; N]>::as_ref', 'std::array::<impl std::borrow::Borrow for [T; N]>::borrow', '<std::boxed::Box as std::convert::AsRef>::as_ref',
   '<std::boxed::Box as std::ops::Deref>::deref', 'std::string::String::borrow', 'std::str::<impl std::borrow::Borrow for std::string::String>::borrow', 'std::boxed::Box::as_ref',
   'core::slice::<impl std::convert::AsRef for [T]>::as_ref', 'std::convert::<impl std::convert::AsRef for [T]>::as_ref', 'std::convert::<impl std::convert::AsRef for str>::as_ref',
   '<str as std::convert::AsRef>::as_ref', 'core::str::<impl std::convert::AsRef<[u8]> for str>::as_ref')
def as_slice(c, st, v):
    ty = pointee(c, 0)
    if c.name().startswith('std::boxed') or (ty is not None and c.ip.p.types[ty].get('path') == 'std::boxed::Box'):
        et = c.ip.p.types[ty]['args'][0]
        if c.ip.p.tk(et) not in ('slice', 'str'):
            pl = c.ip.deref(st, v, ty)
            return [(st, mk('ref', pl.root, pl.path + (('v',),)))]
    return [(st, mk('slice', *c.ip.slice_of(st, v, ty)))]


@m('std::slice::<impl [T]>::to_vec', '<[T] as std::borrow::ToOwned>::to_owned', 'std::slice::<impl std::borrow::ToOwned for [T]>::to_owned', 'std::boxed::convert::<impl std::convert::From for std::boxed::Box>::from',
   'std::str::<impl std::borrow::ToOwned for str>::to_owned', '<std::vec::Vec as std::convert::From>::from', '<std::string::String as std::convert::From>::from', '<T as std::string::ToString>::to_string',
   'std::vec::Vec::into_boxed_slice', 'std::slice::<impl [T]>::into_vec', 'std::string::String::into_bytes', '<str as std::string::ToString>::to_string', '<T as std::borrow::ToOwned>::to_owned',
   '<str as std::borrow::ToOwned>::to_owned', 'std::string::String::into_boxed_str', 'std::str::<impl str>::into_string', 'std::str::<impl str>::to_owned', '<str as std::string::SpecToString>::spec_to_string')
def to_vec(c, st, v):
    ip = c.ip
    t = ip.p.types[c.dty]
    op = 'box' if t.get('path') == 'std::boxed::Box' else 'vec'
    if t.get('path') not in ('std::boxed::Box', 'std::vec::Vec', 'std::string::String'):
        if c.name() == '<T as std::borrow::ToOwned>::to_owned':
            return [(st, deref_load(c, st, v, pointee(c, 0)))]
        return NotImplemented
    a = ip.p.types[c.atys[0]]
    ct = ip.content_ty(c.dty)
    if a['k'] in ('ref',):
        e = ip.p.types[a['e']]
        if e['k'] not in ('slice', 'str', 'array') and e.get('path') not in ('std::vec::Vec', 'std::string::String'):
            if c.name().endswith('to_string'):
                if ip.opts.get('fmt'):
                    x, xt = printed_value(c, st, v, c.atys[0])
                    return [(st, mk('vec', mk('printed', (('show', 'display', x, xt, None),), ty=ct), ty=c.dty))]
                return [(st, mk('vec', mk('display', deref_load(c, st, v, a['e']), ty=ct), ty=c.dty))]
            return NotImplemented
        cc, off, n = ip.slice_content(st, v)
        return [(st, mk(op, ip.subseq(st, cc, off, n), ty=c.dty))]
    if a.get('path') in ('std::vec::Vec', 'std::boxed::Box', 'std::string::String'):
        cc = ip.proj(st, v, ('v',))
        return [(st, mk(op, cc, ty=c.dty))]
    if a['k'] == 'array':
        return [(st, mk(op, v, ty=c.dty))]
    return NotImplemented


@m('<std::vec::Vec as std::clone::Clone>::clone', '<std::boxed::Box as std::clone::Clone>::clone', '<std::string::String as std::clone::Clone>::clone', '<std::collections::BTreeMap as std::clone::Clone>::clone',
   '<[T; N] as std::clone::Clone>::clone', 'std::array::<impl std::clone::Clone for [T; N]>::clone', '<std::borrow::Cow as std::clone::Clone>::clone')
def clone_val(c, st, p):
    if c.name().startswith('<std::borrow::Cow'):
        return NotImplemented
    return [(st, deref_load(c, st, p, pointee(c, 0)))]


@m('<std::boxed::Box as std::cmp::PartialEq>::eq', 'std::vec::partial_eq::<impl std::cmp::PartialEq for std::vec::Vec>::eq', 'core::str::traits::<impl std::cmp::PartialEq for str>::eq',
   'core::slice::cmp::<impl std::cmp::PartialEq for [T]>::eq', 'core::slice::cmp::<impl std::cmp::PartialEq for [A]>::eq', '<std::string::String as std::cmp::PartialEq>::eq',
   'std::array::equality::<impl std::cmp::PartialEq for [T; N]>::eq', 'std::string::<impl std::cmp::PartialEq for std::string::String>::eq', 'std::string::<impl std::cmp::PartialEq for str>::eq',
   'std::vec::partial_eq::<impl std::cmp::PartialEq for &[T]>::eq', 'core::slice::cmp::<impl std::cmp::PartialEq for [T]>::ne', 'std::vec::partial_eq::<impl std::cmp::PartialEq for std::vec::Vec>::ne',
   'core::array::equality::<impl std::cmp::PartialEq for [T; N]>::eq', 'core::array::equality::<impl std::cmp::PartialEq for [T]>::eq', 'std::array::equality::<impl std::cmp::PartialEq for [T]>::eq',
   'core::array::equality::<impl std::cmp::PartialEq for &[T]>::eq', 'std::array::equality::<impl std::cmp::PartialEq for &[T]>::eq',
   'std::array::equality::<impl std::cmp::PartialEq for [T; N]>::ne')
def seq_eq(c, st, a, b):
    ip = c.ip
    xs = []
    for k, v in ((0, a), (1, b)):
        e = pointee(c, k)
        while e is not None and ip.p.tk(e) == 'ref':
            v = deref_load(c, st, v, e)
            e = ip.p.types[e]['e']
        t = ip.p.types[e]
        if t.get('path') == 'std::boxed::Box' and ip.p.tk(t['args'][0]) not in ('slice', 'str'):
            xs.append(deref_load(c, st, v, e))
            continue
        cc, off, n = ip.slice_content(st, v)
        xs.append(ip.subseq(st, cc, off, n))
    neg = c.name().endswith('::ne')
    if ip.opts.get('split_eq'):
        a, b = xs if constbytes(xs[1]) is not None else xs[::-1]
        kb = constbytes(b)
        if kb is not None and len(kb) <= 12 and constbytes(a) is None:
            return [(s, I(int(t != neg))) for s, t in text_split(ip, st, a, kb)]
    r = content_eq(ip, st, xs[0], xs[1])
    return [(st, bnot_bool(r) if neg else r)]


def text_split(ip, st, a, kb):
    """the ways in which bytes can equal a constant or differ from it first"""
    out = []
    n = ip.length(a)
    s = st.copy()
    if s.assume(eq0(addc(n, -len(kb))), False):
        out.append((s, False))
    s = st.copy()
    if not s.add_eq0(addc(n, -len(kb))):
        return out
    for i, x in enumerate(kb):
        e = addc(ip.elem(s, a, I(i)), -x)
        q = s.copy()
        if q.assume(eq0(e), False):
            out.append((q, False))
        if not s.add_eq0(e):
            return out
    return out + [(s, True)]


@m(*[x % ('Ord', 'cmp') for x in ('<std::boxed::Box as std::cmp::%s>::%s', '<std::vec::Vec as std::cmp::%s>::%s', '<std::string::String as std::cmp::%s>::%s', 'core::slice::cmp::<impl std::cmp::%s for [T]>::%s',
                                  'std::slice::cmp::<impl std::cmp::%s for [T]>::%s', 'core::str::traits::<impl std::cmp::%s for str>::%s', 'std::vec::<impl std::cmp::%s for std::vec::Vec>::%s',
                                  'core::array::<impl std::cmp::%s for [T; N]>::%s', 'std::array::<impl std::cmp::%s for [T; N]>::%s')],
   *[x % ('PartialOrd', 'partial_cmp') for x in ('<std::boxed::Box as std::cmp::%s>::%s', '<std::vec::Vec as std::cmp::%s>::%s', '<std::string::String as std::cmp::%s>::%s',
                                                 'core::slice::cmp::<impl std::cmp::%s for [T]>::%s', 'std::slice::cmp::<impl std::cmp::%s for [T]>::%s',
                                                 'core::str::traits::<impl std::cmp::%s for str>::%s', 'std::vec::<impl std::cmp::%s for std::vec::Vec>::%s',
                                                 'core::array::<impl std::cmp::%s for [T; N]>::%s', 'std::array::<impl std::cmp::%s for [T; N]>::%s')])
def seq_cmp(c, st, a, b):
    ip = c.ip
    xs = []
    for k, v in ((0, a), (1, b)):
        e = pointee(c, k)
        while e is not None and ip.p.tk(e) == 'ref':
            v = deref_load(c, st, v, e)
            e = ip.p.types[e]['e']
        t = ip.p.types[e]
        if t.get('path') == 'std::boxed::Box' and ip.p.tk(t['args'][0]) not in ('slice', 'str'):
            return opaque_result(c, st)
        cc, off, n = ip.slice_content(st, v)
        xs.append(ip.subseq(st, cc, off, n))
    opt = c.name().endswith('partial_cmp')
    oty = ip.p.types[c.dty]['args'][0] if opt else c.dty

    def ret(k):
        v = enumv(oty, k + 1)
        return some(c.dty, v) if opt else v
    x, y = xs
    k = const_cmp(x, y)
    if k is not None:
        return [(st, ret(k))]
    out = []
    eq = content_eq(ip, st, x, y)
    flip = x.id > y.id
    lt = mk('seqlt', *((y, x) if flip else (x, y)), rng=(0, 1))
    for t, s in split(st, eq):
        if t:
            out.append((s, ret(0)))
        else:
            for l, s2 in split(s, lt):
                out.append((s2, ret(-1 if l != flip else 1)))
    return out


def const_cmp(x, y):
    """order of two sequences of constants, or of constant byte sequences"""
    if x is y:
        return 0
    kx, ky = constbytes(x), constbytes(y)
    if kx is not None and ky is not None:
        return (kx > ky) - (kx < ky)
    if x.op == 'seq' and y.op == 'seq' and all(p[0] == 'o' for p in x.a[0] + y.a[0]):
        for p, q in zip(x.a[0], y.a[0]):
            u, v = p[1], q[1]
            while u.op == v.op == 'agg' and len(u.a[2]) == len(v.a[2]) == 1:
                u, v = u.a[2][0], v.a[2][0]
            if u.op not in ('box', 'vec') or v.op not in ('box', 'vec'):
                return None
            k = const_cmp(u.a[0], v.a[0])
            if k != 0:
                return k
        return (len(x.a[0]) > len(y.a[0])) - (len(x.a[0]) < len(y.a[0]))


@m('core::slice::<impl [T]>::contains', 'std::vec::Vec::contains')
def slice_contains(c, st, sl, x):
    ip = c.ip
    cc, off, n = ip.slice_content(st, sl)
    s = ip.subseq(st, cc, off, n)
    v = deref_load(c, st, x, pointee(c, 1))
    if s.op == 'seq' and all(p[0] == 'o' for p in s.a[0]) and len(s.a[0]) <= 16:
        r = FALSE
        for p in s.a[0]:
            e = value_eq(ip, st, p[1], v)
            r = bnot_bool(ip.andb(bnot_bool(r), bnot_bool(e)))
        return [(st, r)]
    ip.emit(st, 'contains', s, v)
    return [(st, mk('contains', s, v, rng=(0, 1)))]


# ---- Vec / String / Box -----------------------------------------------------------------------
@m('std::vec::Vec::new', 'std::string::String::new', 'std::vec::Vec::with_capacity', 'std::string::String::with_capacity', '<std::vec::Vec as std::default::Default>::default',
   '<std::string::String as std::default::Default>::default')
def vec_new(c, st, *a):
    return [(st, mk('vec', c.ip.emptyseq(c.ip.content_ty(c.dty)), ty=c.dty))]


@m('std::vec::from_elem')
def from_elem(c, st, v, n):
    if n.op == 'int' and n.a[0] <= 32:
        return [(st, mk('vec', mk('seq', tuple(('o', v) for _ in range(n.a[0])), ty=c.ip.content_ty(c.dty)), ty=c.dty))]
    return [(st, mk('vec', mk('rep', v, n, ty=c.ip.content_ty(c.dty)), ty=c.dty))]


@m('std::vec::Vec::reserve', 'std::vec::Vec::shrink_to_fit', 'std::string::String::reserve', 'std::vec::Vec::reserve_exact')
def vec_reserve(c, st, *a):
    return [(st, unit(c))]


@m('std::vec::Vec::push', 'std::vec::Vec::push_mut')
def vec_push(c, st, p, v):
    ip = c.ip
    root, path = vplace(c, st, p)
    old = ip.load(st, root, path)
    new = ip.concat(st, old, mk('seq', (('o', v),)), ty=old.ty)
    ip.store(st, root, path, new)
    ip.emit(st, 'push', root, path, v)
    return [(st, unit(c))]


@m('std::string::String::push')
def string_push(c, st, p, ch):
    ip = c.ip
    root, path = vplace(c, st, p)
    old = ip.load(st, root, path)
    if ch.op == 'int':
        add_ = mk('seq', tuple(('o', I(x)) for x in chr(ch.a[0]).encode()))
    else:
        add_ = mk('charbytes', ch, ty=ip.p.strid.get('str'))
    ip.store(st, root, path, ip.concat(st, old, add_, ty=old.ty))
    return [(st, unit(c))]


@m('std::string::String::push_str', 'std::vec::Vec::extend_from_slice', 'std::vec::Vec::extend_from_within')
def vec_extend_slice(c, st, p, sl):
    ip = c.ip
    if 'within' in c.name():
        return NotImplemented
    root, path = vplace(c, st, p)
    old = ip.load(st, root, path)
    cc, off, n = ip.slice_content(st, sl)
    s = ip.subseq(st, cc, off, n)
    ip.store(st, root, path, ip.concat(st, old, s, ty=old.ty))
    ip.emit(st, 'append', root, path, s)
    return [(st, unit(c))]


@m('std::vec::Vec::append')
def vec_append(c, st, p, q):
    ip = c.ip
    root, path = vplace(c, st, p)
    r2, p2 = vplace(c, st, q, 1)
    old = ip.load(st, root, path)
    s = ip.load(st, r2, p2)
    ip.store(st, root, path, ip.concat(st, old, s, ty=old.ty))
    ip.store(st, r2, p2, ip.emptyseq(s.ty))
    ip.emit(st, 'append', root, path, s)
    return [(st, unit(c))]


@m('std::vec::Vec::clear', 'std::string::String::clear')
def vec_clear(c, st, p):
    root, path = vplace(c, st, p)
    old = c.ip.load(st, root, path)
    c.ip.store(st, root, path, c.ip.emptyseq(old.ty))
    c.ip.emit(st, 'clear', root, path)
    return [(st, unit(c))]


@m('std::vec::Vec::truncate')
def vec_truncate(c, st, p, n):
    ip = c.ip
    root, path = vplace(c, st, p)
    out = []
    for t, s in split(st, ge0(sub(ip.length(ip.load(st, root, path)), n))):
        if t:
            old = ip.load(s, root, path)
            ip.store(s, root, path, ip.subseq(s, old, I(0), n))
            ip.emit(s, 'truncate', root, path, n)
        out.append((s, unit(c)))
    return out


@m('std::vec::Vec::pop')
def vec_pop(c, st, p):
    ip = c.ip
    root, path = vplace(c, st, p)
    n = ip.length(ip.load(st, root, path))
    out = []
    for t, s in split(st, ge0(addc(n, -1))):
        if not t:
            out.append((s, none(c.dty)))
            continue
        old = ip.load(s, root, path)
        v = ip.elem(s, old, addc(n, -1))
        ip.store(s, root, path, ip.subseq(s, old, I(0), addc(n, -1)))
        ip.emit(s, 'pop', root, path)
        out.append((s, some(c.dty, v)))
    return out


@m('std::vec::Vec::insert', 'std::vec::Vec::remove', 'std::vec::Vec::swap_remove')
def vec_insert(c, st, p, i, v=None):
    ip = c.ip
    root, path = vplace(c, st, p)
    out = []
    ins = c.name().endswith('insert')
    n = ip.length(ip.load(st, root, path))
    for t, s in split(st, ge0(addc(sub(n, i), 0 if ins else -1))):
        if not t:
            c.panic(s, 'Vec index out of range')
            continue
        old = ip.load(s, root, path)
        i = s.norm(i)
        a = ip.subseq(s, old, I(0), i)
        if ins:
            b = ip.subseq(s, old, i, sub(n, i))
            new = ip.concat(s, ip.concat(s, a, mk('seq', (('o', v),)), ty=old.ty), b, ty=old.ty)
            ip.store(s, root, path, new)
            ip.emit(s, 'insert', root, path, i, v)
            out.append((s, unit(c)))
        else:
            e = ip.elem(s, old, i)
            b = ip.subseq(s, old, addc(i, 1), addc(sub(n, i), -1))
            if 'swap' in c.name():
                new = mk('cont', old, i, ty=old.ty)
            else:
                new = ip.concat(s, a, b, ty=old.ty)
            ip.store(s, root, path, new)
            ip.emit(s, 'remove', root, path, i)
            out.append((s, e))
    return out


@m('core::slice::<impl [T]>::reverse', 'std::slice::<impl [T]>::sort', 'std::slice::<impl [T]>::sort_by', 'std::slice::<impl [T]>::sort_by_key', 'std::slice::<impl [T]>::sort_by_cached_key',
   'core::slice::<impl [T]>::sort_unstable', 'core::slice::<impl [T]>::sort_unstable_by', 'core::slice::<impl [T]>::sort_unstable_by_key', 'core::slice::<impl [T]>::rotate_left',
   'core::slice::<impl [T]>::rotate_right', 'core::slice::<impl [T]>::swap', 'std::slice::<impl [T]>::reverse')
def slice_edit(c, st, p, *a):
    """another order of the same items"""
    ip = c.ip
    root, path, off, n = ip.slice_of(st, p, pointee(c, 0))
    old = ip.load(st, root, path)
    s = st.norm(n)
    if s.op == 'int' and s.a[0] < 2:
        return [(st, unit(c))]
    if not (st.entails_eq(off, I(0)) and st.entails_eq(n, ip.length(old))):
        return NotImplemented
    new = mk('edited', c.name().rsplit('::', 1)[-1], old, c.site, ty=old.ty)
    st.add_eq0(sub(ip.length(new), n))
    ip.store(st, root, path, new)
    ip.emit(st, 'edit', root, path)
    return [(st, unit(c))]


@m('std::vec::Vec::dedup', 'std::vec::Vec::dedup_by', 'std::vec::Vec::dedup_by_key', 'std::vec::Vec::retain', 'std::vec::Vec::retain_mut')
def vec_edit(c, st, p, *a):
    """some of the items, in the same order"""
    ip = c.ip
    root, path = vplace(c, st, p)
    old = ip.load(st, root, path)
    new = mk('edited', c.name().rsplit('::', 1)[-1], old, c.site, ty=old.ty)
    if 'retain' in c.name() and a and new not in ip.retained:
        # what is kept: the predicate's outcomes on any item
        ety = ip.p.types[pointee(c, 0)].get('args', [None])[0]
        x = mk('sym', 'kept:%s#%d' % (ety, new.id), ty=ety, rng=ip.p.irange(ety) if ety is not None else None)
        n0 = len(ip.panics)
        s2 = st.copy()
        s2.mem[('T', c.site[0].uid, c.site[1], 'kept')] = x
        ip.retained[new] = (x, s2, ip.call_value(s2.copy(), c.fr, a[0], [mk('ref', ('T', c.site[0].uid, c.site[1], 'kept'), ())], ip.p.strid.get('bool'), c.site))
        del ip.panics[n0:]
    st.add_ge0(sub(ip.length(old), ip.length(new)))
    if 'dedup' in c.name():
        out = []
        for t, s in split(st, ge0(addc(ip.length(old), -1))):
            if t:
                s.add_ge0(addc(ip.length(new), -1))
            else:
                s.add_eq0(ip.length(new))
            ip.store(s, root, path, new)
            ip.emit(s, 'edit', root, path)
            out.append((s, unit(c)))
        return out
    ip.store(st, root, path, new)
    ip.emit(st, 'edit', root, path)
    return [(st, unit(c))]


@m('std::boxed::Box::new')
def box_new(c, st, v):
    return [(st, mk('box', v, ty=c.dty))]


@m('std::boxed::Box::new_uninit')
def box_new_uninit(c, st):
    return [(st, mk('box', mk('uninit', c.site[0].uid, c.site[1], ty=c.ip.p.types[c.dty]['args'][0]), ty=c.dty))]


@m('std::boxed::box_assume_init_into_vec_unsafe')
def box_into_vec(c, st, b):
    v = c.ip.proj(st, b, ('v',))
    while v.op == 'agg' and v.a[2]:
        # MaybeUninit { value: ManuallyDrop { value } }
        fs = [x for x in v.a[2] if x.op not in ('undef', 'zst', 'uninit')]
        if not fs:
            break
        v = fs[-1]
    ct = c.ip.content_ty(c.dty)
    if v.op == 'seq':
        v = mk('seq', v.a[0], ty=v.ty)
    return [(st, mk('vec', v, ty=c.dty))]


# ---- iterators --------------------------------------------------------------------------------
def slice_iter(c, st, v, ty=None):
    root, path, off, n = c.ip.slice_of(st, v, ty if ty is not None else pointee(c, 0))
    return mk('iter', 'slice', root, path, off, add(off, n), ty=c.dty)


@m('core::slice::<impl [T]>::iter', 'core::slice::<impl [T]>::iter_mut', 'core::slice::iter::<impl std::iter::IntoIterator for &[T]>::into_iter', '<&std::vec::Vec as std::iter::IntoIterator>::into_iter',
   'core::slice::iter::<impl std::iter::IntoIterator for &mut [T]>::into_iter', '<&mut std::vec::Vec as std::iter::IntoIterator>::into_iter', 'std::slice::Iter::new',
   'std::array::<impl std::iter::IntoIterator for &[T; N]>::into_iter', 'std::array::iter::<impl std::iter::IntoIterator for &[T; N]>::into_iter',
   'std::array::<impl std::iter::IntoIterator for &mut [T; N]>::into_iter')
def sl_iter(c, st, v):
    return [(st, slice_iter(c, st, v))]


@m('<std::vec::Vec as std::iter::IntoIterator>::into_iter', 'std::array::iter::<impl std::iter::IntoIterator for [T; N]>::into_iter', '<std::boxed::Box as std::iter::IntoIterator>::into_iter',
   'std::vec::Vec::drain')
def own_iter(c, st, v, *r):
    ip = c.ip
    if c.name().endswith('drain'):
        root, path = vplace(c, st, v)
        n = ip.length(ip.load(st, root, path))
        rr = range_of(c, st, c.atys[1], r[0], n)
        if rr is None or not (rr[0].op == 'int' and rr[0].a[0] == 0 and rr[1] is n):
            return NotImplemented
        old = ip.load(st, root, path)
        ip.store(st, root, path, ip.emptyseq(old.ty))
        ip.emit(st, 'clear', root, path)
        return [(st, mk('iter', 'own', old, I(0), n, ty=c.dty))]
    ct = v if c.atys[0] is not None and ip.p.tk(c.atys[0]) == 'array' else ip.proj(st, v, ('v',))
    return [(st, mk('iter', 'own', ct, I(0), ip.length(ct), ty=c.dty))]


def ipath(c, ty):
    return c.ip.p.types[ty].get('path') if ty is not None else None


def iter_next(c, st, root, path, ty):
    """advance the iterator stored at a place: [(state, item or None)]"""
    ip = c.ip
    v = ip.load(st, root, path)
    if v.op == 'iter':
        return basic_next(c, st, root, path, v, ty)
    if v.op == 'ref':
        return iter_next(c, st, v.a[0], v.a[1], ip.p.types[ty].get('e') if ty is not None and ip.p.tk(ty) == 'ref' else None)
    p = ipath(c, ty) or ''
    last = p.split('::')[-1]
    if p.startswith(('std::iter::', 'core::iter::', 'std::ops::Range', 'std::option::', 'std::array::')) and ty is not None:
        fs = ip.p.fields(ty)

        def sub_(k):
            return path + (('f', None, k, fs[k]),)
        if last in ('Cloned', 'Copied'):
            out = []
            for s, x in iter_next(c, st, root, sub_(0), fs[0]):
                out.append((s, None if x is None else ip.read(s, ip.deref(s, x, None))))
            return out
        if last == 'Map':
            out = []
            for s, x in iter_next(c, st, root, sub_(0), fs[0]):
                if x is None:
                    out.append((s, None))
                    continue
                f = ip.load(s, root, sub_(1))
                fref = mk('ref', root, sub_(1)) if f.op == 'agg' else f
                out += [(s2, r) for s2, r in ip.call_value(s, c.fr, fref, [x], None, c.site)]
            return out
        if last == 'Enumerate':
            out = []
            for s, x in iter_next(c, st, root, sub_(0), fs[0]):
                if x is None:
                    out.append((s, None))
                    continue
                n = ip.load(s, root, sub_(1))
                ip.store(s, root, sub_(1), addc(n, 1))
                out.append((s, mk('agg', None, 0, (n, x))))
            return out
        if last in ('Range', 'RangeInclusive') and len(fs) >= 2:
            a, b = ip.load(st, root, sub_(0)), ip.load(st, root, sub_(1))
            out = []
            for t, s in split(st, ge0(addc(sub(b, a), -1))):
                if t:
                    ip.store(s, root, sub_(0), addc(a, 1))
                out.append((s, a if t else None))
            return out
        if last in ('Filter', 'FilterMap', 'SkipWhile', 'TakeWhile', 'MapWhile'):
            def body(s, x):
                f = ip.load(s, root, sub_(1))
                fref = mk('ref', root, sub_(1)) if f.op == 'agg' else f
                if last in ('FilterMap', 'MapWhile'):
                    res = []
                    for s2, r in ip.call_value(s, c.fr, fref, [x], None, c.site):
                        for var, s3, r3 in opt_cases(c, s2, r):
                            res.append((var, s3, r3))
                    return res
                tmp = ('T', c.site[0].uid, c.site[1], 'flt')
                s.mem[tmp] = x
                res = []
                for s2, r in ip.call_value(s, c.fr, fref, [mk('ref', tmp, ())], None, c.site):
                    for t, s3 in split(s2, r):
                        res.append((t, s3, x))
                return res
            if last in ('TakeWhile', 'MapWhile', 'SkipWhile'):
                raise Unsupported(last)
            return skip_loop(c, st, root, sub_(0), fs[0], body)
        if last == 'Rev':
            inner = ip.load(st, root, sub_(0))
            if inner.op == 'iter' and inner.a[0] in ('slice', 'own'):
                return basic_next_back(c, st, root, sub_(0), inner, fs[0])
        if last == 'Take':
            out = []
            n = ip.load(st, root, sub_(1))
            for t, s in split(st, ge0(addc(n, -1))):
                if not t:
                    out.append((s, None))
                    continue
                ip.store(s, root, sub_(1), addc(n, -1))
                out += iter_next(c, s, root, sub_(0), fs[0])
            return out
        if last == 'Skip':
            n, inner = st.norm(ip.load(st, root, sub_(1))), ip.load(st, root, sub_(0))
            if n.op != 'int' and inner.op == 'iter' and inner.a[0] in ('slice', 'own'):
                out = []
                at = 3 if inner.a[0] == 'slice' else 2
                pos, end = inner.a[at], inner.a[at + 1]
                for z, s in split(st, eq0(n)):
                    if z:
                        out += iter_next(c, s, root, sub_(0), fs[0])
                        continue
                    for t, s1 in split(s, ge0(sub(sub(end, pos), n))):
                        ip.store(s1, root, sub_(1), I(0))
                        ip.store(s1, root, sub_(0), mk('iter', *inner.a[:at], add(pos, n) if t else end, end, ty=inner.ty))
                        out += iter_next(c, s1, root, sub_(0), fs[0])
                return out
            if n.op == 'int' and n.a[0] <= 8:
                cur = [(st, 1)]
                done = []
                ip.store(st, root, sub_(1), I(0))
                for _ in range(n.a[0]):
                    nxt = []
                    for s, _x in cur:
                        for s2, x in iter_next(c, s, root, sub_(0), fs[0]):
                            if x is None:
                                done.append((s2, None))
                            else:
                                nxt.append((s2, 1))
                    cur = nxt
                for s, _x in cur:
                    done += iter_next(c, s, root, sub_(0), fs[0])
                return done
        if last == 'Chain':
            out = []
            a = ip.load(st, root, sub_(0))
            for var, s, inner in opt_cases(c, st, a):
                if var:
                    ot = fs[0]
                    it = ip.p.fields(ot, 1)[0]
                    for s2, x in iter_next(c, s, root, sub_(0) + (('f', 1, 0, it),), it):
                        if x is not None:
                            out.append((s2, x))
                        else:
                            ip.store(s2, root, sub_(0), none(ot))
                            out += chain_b(c, s2, root, sub_(1), fs[1])
                else:
                    out += chain_b(c, s, root, sub_(1), fs[1])
            return out
        if last == 'Once' or (p.startswith('std::option') and last in ('IntoIter', 'Item')):
            # Once { inner: option::IntoIter { inner: Item { opt } } }
            x, pa, t2 = v, path, ty
            while ip.p.types[t2].get('path') != 'std::option::Option':
                f = ip.p.fields(t2)[0]
                pa = pa + (('f', None, 0, f),)
                t2 = f
            out = []
            for var, s, inner in opt_cases(c, st, ip.load(st, root, pa)):
                if var:
                    ip.store(s, root, pa, none(t2))
                out.append((s, inner if var else None))
            return out
        if last == 'Zip' and len(fs) >= 2:
            out = []
            for s, x in iter_next(c, st, root, sub_(0), fs[0]):
                if x is None:
                    out.append((s, None))
                    continue
                for s2, y in iter_next(c, s, root, sub_(1), fs[1]):
                    out.append((s2, None if y is None else mk('agg', None, 0, (x, y))))
            return out
        if last == 'Empty':
            return [(st, None)]
        if last == 'Flatten':
            # over options and results: what there is in each, one at most. The inner iterator is in inner.iter: Fuse { iter: Option<I> }
            fc = fs[0]
            fu = ip.p.fields(fc)[0]
            op = ip.p.fields(fu)[0]
            it = ip.p.fields(op, 1)[0]
            fro = ip.p.types[ip.p.fields(ip.p.fields(fc)[1], 1)[0]].get('path') if len(ip.p.fields(fc)) > 1 else None
            pa = path
            for k, f in ((0, fc), (0, fu), (0, op)):
                pa = pa + (('f', None, 0, f),)
            cur = ip.load(st, root, pa)
            if fro in ('std::result::IntoIter', 'std::option::IntoIter') and cur.op == 'agg' and cur.a[1] == 1:
                yes = 0 if 'result' in fro else 1

                def body(s, x):
                    xty = x.ty if x.ty is not None else x.a[0] if x.op == 'agg' else None
                    if xty is None:
                        raise Unsupported('items of Flatten')
                    res = []
                    for t, s2 in split(s, eq0(addc(ip.discr(s, x, xty), -yes))):
                        res.append((t, s2, ip.proj(s2, x, ('f', yes, 0, ip.p.fields(xty, yes)[0])) if t else None))
                    return res
                return skip_loop(c, st, root, pa + (('f', 1, 0, it),), it, body)
        if last == 'Peekable':
            out = []
            for var, s, inner in opt_cases(c, st, ip.load(st, root, sub_(1))):
                if not var:
                    out += iter_next(c, s, root, sub_(0), fs[0])
                    continue
                ip.store(s, root, sub_(1), none(fs[1]))
                for var2, s2, x in opt_cases(c, s, inner):
                    out.append((s2, x if var2 else None))
            return out
    # user iterators: a `next` of the workspace for this type
    if ty is not None:
        b = find_next(ip, ty)
        if b is not None:
            out = []
            ref = ip.mkref(root, path)
            if b['id'] in ip.summaries:
                c2 = CallCtx(ip, {'i': b['id'], 'path': b['path'], 'name': 'next'}, [ref], [b['locals'][1]], b['locals'][0], c.site, c.fr)
                rs = ip.summaries[b['id']](c2, st, [ref])
            else:
                rs = ip.invoke(st, c.fr, b, [ref], c.site)
            for s, r in rs:
                for var, s2, x in opt_cases(c, s, r):
                    out.append((s2, x if var else None))
            return out
    # opaque iterator
    ip.notes['opaque-iter:' + (ip.p.ts(ty) if ty is not None else '?')] += 1
    r = fresh(c, st, 'next')
    s2 = st.copy()
    new = mk('ret', c.site[0].uid, c.site[1], 'iterstate', ty=ty)
    ip.store(st, root, path, new)
    ip.emit(st, 'next', v, r)
    ip.emit(s2, 'end', v)
    lossy_iter(ip, ty, r, st, s2, v)
    return [(st, r), (s2, None)]


PURE_ITERS = ('std::slice::Iter', 'std::slice::IterMut', 'std::vec::IntoIter', 'std::array::IntoIter', 'std::str::Chars', 'std::str::Bytes', 'std::option::IntoIter', 'std::option::Iter')


def lossy_iter(ip, ty, r, st, s2, v):
    """an unmodelled iterator of the library: what it does besides is not among the events"""
    path = (ip.p.types[ty].get('path') or '') if ty is not None else ''
    if path in PURE_ITERS:
        # runs through memory and calls nothing
        if v in ip.unk:
            ip.unk.add(r)
        return
    if path or v in ip.unk:
        ip.unk.add(r)
        for s in (st, s2):
            ip.emit(s, 'lossy', path)
            ip.lossy.add(s.ev)


def chain_b(c, st, root, path, ty):
    ip = c.ip
    out = []
    for var, s, inner in opt_cases(c, st, ip.load(st, root, path)):
        if var:
            it = ip.p.fields(ty, 1)[0]
            out += iter_next(c, s, root, path + (('f', 1, 0, it),), it)
        else:
            out.append((s, None))
    return out


def find_next(ip, ty):
    s = ip.p.ts(ty)
    idx = getattr(ip.p, '_nextidx', None)
    if idx is None:
        idx = ip.p._nextidx = {}
        for b in ip.p.d['bodies']:
            if b['body'] is not None and b.get('trait') == 'std::iter::Iterator' and (b.get('titem') or '').split('::')[-1] in ('next',) or (b['body'] is not None and b['path'].endswith(' as std::iter::Iterator>::next')):
                st_ = b.get('self')
                if st_ is None:
                    continue
                key = ip.p.ts(st_) if isinstance(st_, int) else st_
                idx.setdefault(key, b)
    b = idx.get(s)
    if b is None and (ip.p.types[ty].get('path') or '').startswith('std::iter::'):
        if '#std' not in idx:
            idx['#std'] = {}
            for b2 in ip.p.d['bodies']:
                if b2['body'] is not None and b2['path'].startswith('<std::iter::') and b2['path'].endswith(' as std::iter::Iterator>::next') and b2['argc'] == 1:
                    idx['#std'].setdefault(ip.p.types[b2['locals'][1]].get('e'), b2)
        return idx['#std'].get(ty)
    if b is None:
        s = re.sub(r"'\w+", "'_", s)
        for b2 in ip.p.d['bodies']:
            if b2['body'] is not None and b2['crate'].startswith('uwuhi') and b2['path'].endswith(' as std::iter::Iterator>::next') and b2['argc'] == 1:
                t = ip.p.types[b2['locals'][1]]
                if t.get('e') is not None and (t['e'] == ty or re.sub(r"'\w+", "'_", ip.p.ts(t['e'])) == s):
                    idx[ip.p.ts(ty)] = b2
                    return b2
    return b


def opt_cases(c, st, o):
    """[(is_some, state, payload)] of an Option value"""
    ip = c.ip
    if o.op == 'agg':
        return [(o.a[1] == 1, st, o.a[2][0] if o.a[1] == 1 else None)]
    d = mk('discr', o, rng=(0, 1))
    out = []
    for t, s in split(st, eq0(addc(d, -1))):
        ft = None
        if o.ty is not None:
            ft = ip.p.fields(o.ty, 1)[0]
        out.append((t, s, ip.opq(ft, 'fld', o, 1, 0) if t else None))
    return out


def skip_loop(c, st, root, path, ty, body):
    """next of filtering adapters: an inner loop"""
    ip = c.ip
    tmp = ('T', c.site[0].uid, c.site[1], 'found')

    def step(s):
        back, ex = [], []
        for s2, x in iter_next(c, s, root, path, ty):
            if x is None:
                s2.mem[tmp] = I(0)
                ex.append(('end', s2))
                continue
            for keep, s3, y in body(s2, x):
                if keep:
                    s3.mem[tmp] = y
                    ex.append(('item', s3))
                else:
                    back.append(s3)
        return back, ex
    out = []
    for lab, s in ip.fix(c.fr or c.site[0], ('m', c.site[1], 'skip'), [st], step):
        v = s.mem.pop(tmp)
        out.append((s, None if lab == 'end' else v))
    return out


def basic_next(c, st, root, path, v, ty):
    ip = c.ip
    k = v.a[0]
    if k == 'slice':
        _, r2, p2, pos, end = v.a
        out = []
        for t, s in split(st, ge0(addc(sub(end, pos), -1))):
            if t:
                ip.store(s, root, path, mk('iter', 'slice', r2, p2, addc(pos, 1), end, ty=v.ty))
                out.append((s, mk('ref', r2, p2 + (('i', pos),))))
            else:
                out.append((s, None))
        return out
    if k == 'own':
        _, ct, pos, end = v.a
        out = []
        for t, s in split(st, ge0(addc(sub(end, pos), -1))):
            if t:
                ip.store(s, root, path, mk('iter', 'own', ct, addc(pos, 1), end, ty=v.ty))
                out.append((s, ip.elem(s, ct, pos)))
            else:
                out.append((s, None))
        return out
    if k == 'split':
        # parts of a text; how many there are is unknown
        _, ct, kind, pat, pos, n = v.a
        out = []
        for t, s in split(st, ge0(addc(sub(n, pos), -1))):
            if t:
                ip.store(s, root, path, mk('iter', 'split', ct, kind, pat, addc(pos, 1), n, ty=v.ty))
                part = mk('splitpart', ct, kind, pat, pos, ty=ip.p.strid.get('str'))
                out.append((s, mk('slice', ('C', part), (), I(0), ip.length(part))))
            else:
                out.append((s, None))
        return out
    if k == 'splitn':
        # mk('iter','splitn', root, path, pos, end, remaining, pred)
        _, r2, p2, pos, end, cnt, pred = v.a
        if cnt.op != 'int':
            ip.notes['splitn-unknown'] += 1
            return [(st, fresh(c, st, 'splitn')), (st.copy(), None)]
        if cnt.a[0] == 0:
            return [(st, None)]
        if cnt.a[0] == 1:
            ip.store(st, root, path, mk('iter', 'splitn', r2, p2, pos, end, I(0), pred, ty=v.ty))
            return [(st, ip.mkslice(r2, p2, pos, sub(end, pos)))]
        out = []
        for found, s, q in find_first(c, st, r2, p2, pos, end, pred):
            if found:
                ip.store(s, root, path, mk('iter', 'splitn', r2, p2, addc(q, 1), end, addc(cnt, -1), pred, ty=v.ty))
                out.append((s, ip.mkslice(r2, p2, pos, sub(q, pos))))
            else:
                ip.store(s, root, path, mk('iter', 'splitn', r2, p2, pos, end, I(0), pred, ty=v.ty))
                out.append((s, ip.mkslice(r2, p2, pos, sub(end, pos))))
        return out
    if k == 'map':
        _, mp, mode, pos, n = v.a
        out = []
        for t, s in split(st, ge0(addc(sub(n, pos), -1))):
            if t:
                ip.store(s, root, path, mk('iter', 'map', mp, mode, addc(pos, 1), n, ty=v.ty))
                it = None
                kt = vt = None
                kr, vr = mk('mapkey', mp, pos), mk('mapval', mp, pos)
                a = mk('ref', ('K', kr), ())
                b = mk('ref', ('K', vr), ())
                if mp.ty is not None:
                    args = ip.p.types[mp.ty]['args']
                    kr.ty = kr.ty if kr.ty is not None else args[0]
                    if len(args) > 1:
                        vr.ty = vr.ty if vr.ty is not None else args[1]
                if mode == 'values':
                    out.append((s, b))
                elif mode == 'keys':
                    out.append((s, a))
                else:
                    out.append((s, mk('agg', None, 0, (a, b))))
            else:
                out.append((s, None))
        return out
    ip.notes['iter-kind:' + str(k)] += 1
    r = fresh(c, st, 'next')
    return [(st, r), (st.copy(), None)]


def basic_next_back(c, st, root, path, v, ty):
    ip = c.ip
    k = v.a[0]
    out = []
    if k == 'slice':
        _, r2, p2, pos, end = v.a
        for t, s in split(st, ge0(addc(sub(end, pos), -1))):
            if t:
                ip.store(s, root, path, mk('iter', 'slice', r2, p2, pos, addc(end, -1), ty=v.ty))
                out.append((s, mk('ref', r2, p2 + (('i', addc(end, -1)),))))
            else:
                out.append((s, None))
        return out
    _, ct, pos, end = v.a
    for t, s in split(st, ge0(addc(sub(end, pos), -1))):
        if t:
            ip.store(s, root, path, mk('iter', 'own', ct, pos, addc(end, -1), ty=v.ty))
            out.append((s, ip.elem(s, ct, addc(end, -1))))
        else:
            out.append((s, None))
    return out


def pred_term(c, st, pred, ety, byval=False):
    """the predicate as a boolean term over a symbolic element"""
    ip = c.ip
    x = mk('sym', 'elt:%s#%d' % (ety, ip.serial), ty=ety, rng=ip.p.irange(ety) if ety is not None else None)
    s = st.copy()
    arg = x if byval else mk('ref', ('C', x), ())
    n0 = len(ip.panics)
    rs = ip.call_value(s, c.fr, pred, [arg], ip.p.strid.get('bool'), c.site)
    if len(rs) == 1:
        return mk('lam', x, rs[0][0].norm(rs[0][1]))
    if rs and all(r[1].op == 'int' for r in rs):
        # a case split: collect the constraints added on the element
        return mk('lam', x, mk('cases', tuple(sorted(((r[1].a[0], tuple(sorted((show(k), v) for k, v in r[0].eqc.items() if x in tsyms(k)))) for r in rs)))))
    return mk('lam', x, mk('?', c.site[0].uid, c.site[1]))


def find_first(c, st, root, path, pos, end, pred):
    """first index in [pos,end) whose element satisfies pred: [(found, state, index)]"""
    ip = c.ip
    ct = ip.load(st, root, path)
    q = mk('firstpos', ct, pos, end, pred, rng=(0, ISIZE))
    if ip.opts.get('fmt') and not (pred.op == 'lam' and pred.a[1].op == 'eq0'):
        ip.emit(st, 'looked', ct)
    s2 = st.copy()
    out = []
    if st.add_ge0(sub(q, pos)) and st.add_ge0(addc(sub(end, q), -1)):
        # the predicate holds there
        x, p = pred.a
        e = ip.elem(st, ct, q)
        if p.op in ('eq0', 'ge0', 'not'):
            st.assume(subst(p, {x: e}), True)
        found_atom = mk('has', ct, pos, end, pred, rng=(0, 1))
        if st.assume(found_atom, True):
            out.append((True, st, q))
    found_atom = mk('has', ct, pos, end, pred, rng=(0, 1))
    if s2.assume(found_atom, False):
        out.append((False, s2, None))
    return out


ADAPTERS = ('Peekable', 'Enumerate', 'Chain', 'Zip', 'Map', 'Filter', 'FilterMap', 'Copied', 'Cloned', 'Once', 'Skip', 'Take', 'Rev', 'Range', 'Flatten')


@m('<std::slice::Iter as std::iter::Iterator>::next', '<std::slice::IterMut as std::iter::Iterator>::next', '<std::vec::IntoIter as std::iter::Iterator>::next', '<std::array::IntoIter as std::iter::Iterator>::next',
   '<std::str::SplitTerminator as std::iter::Iterator>::next', '<std::str::Split as std::iter::Iterator>::next', '<std::slice::SplitN as std::iter::Iterator>::next', '<std::collections::btree_map::Values as std::iter::Iterator>::next',
   '<std::collections::btree_map::Iter as std::iter::Iterator>::next', '<std::collections::btree_map::Keys as std::iter::Iterator>::next', '<std::slice::Split as std::iter::Iterator>::next',
   '<std::vec::Drain as std::iter::Iterator>::next', '<std::str::SplitN as std::iter::Iterator>::next', '<std::str::Bytes as std::iter::Iterator>::next', 'std::iter::Iterator::next')
def next_m(c, st, p):
    pl = c.ip.deref(st, p, pointee(c, 0))
    v = c.ip.load(st, pl.root, pl.path)
    ity = pointee(c, 0)
    if v.op == 'ref' and ity is not None and c.ip.p.tk(ity) == 'ref':
        return [(s, none(c.dty) if x is None else some(c.dty, x)) for s, x in iter_next(c, st, pl.root, pl.path, ity)]
    if v.op != 'iter' and ity is not None and (c.ip.p.types[ity].get('path') or '').rpartition('::')[2] in ADAPTERS and (c.ip.p.types[ity].get('path') or '').startswith('std::'):
        return [(s, none(c.dty) if x is None else some(c.dty, x)) for s, x in iter_next(c, st, pl.root, pl.path, ity)]
    if v.op != 'iter':
        if c.name() == 'std::iter::Iterator::next':
            return NotImplemented
        b = c.ip.p.bodies.get(c.f.get('i'))
        if b is not None and b['body'] is not None and (b['crate'].startswith('uwuhi') or b['path'].startswith('<std::iter::')):
            return NotImplemented
    if v.op != 'iter':
        # an opaque iterator (a parameter): yields an unknown number of unknown items
        c.ip.notes['opaque-next'] += 1
        r = fresh(c, st, 'next', c.ip.p.fields(c.dty, 1)[0])
        s2 = st.copy()
        c.ip.store(st, pl.root, pl.path, mk('ret', c.site[0].uid, c.site[1], 'iterstate', ty=v.ty))
        c.ip.emit(st, 'next', v, r)
        lossy_iter(c.ip, ity, r, st, s2, v)
        return [(st, some(c.dty, r)), (s2, none(c.dty))]
    out = []
    for s, x in basic_next(c, st, pl.root, pl.path, v, None):
        if x is None:
            out.append((s, none(c.dty)))
        else:
            if x.op == 'agg' and x.a[0] is None:
                x = mk('agg', c.ip.p.fields(c.dty, 1)[0], x.a[1], x.a[2], ty=c.ip.p.fields(c.dty, 1)[0])
            out.append((s, some(c.dty, x)))
    return out


@m('<std::slice::Iter as std::iter::DoubleEndedIterator>::next_back', '<std::vec::IntoIter as std::iter::DoubleEndedIterator>::next_back')
def next_back_m(c, st, p):
    pl = c.ip.deref(st, p, pointee(c, 0))
    v = c.ip.load(st, pl.root, pl.path)
    if v.op != 'iter' or v.a[0] not in ('slice', 'own'):
        return NotImplemented
    return [(s, none(c.dty) if x is None else some(c.dty, x)) for s, x in basic_next_back(c, st, pl.root, pl.path, v, None)]


@m('<std::slice::Iter as std::clone::Clone>::clone', '<std::vec::IntoIter as std::clone::Clone>::clone', '<std::str::SplitTerminator as std::clone::Clone>::clone')
def iter_clone(c, st, p):
    return [(st, deref_load(c, st, p, pointee(c, 0)))]


@m('<std::slice::Iter as std::iter::ExactSizeIterator>::len', 'std::slice::Iter::len', 'std::iter::ExactSizeIterator::len', '<std::slice::Iter as std::iter::Iterator>::count')
def iter_len(c, st, p):
    v = deref_load(c, st, p, pointee(c, 0)) if c.ip.p.tk(c.atys[0]) == 'ref' else p
    if v.op == 'iter' and v.a[0] == 'slice':
        return [(st, sub(v.a[4], v.a[3]))]
    if v.op == 'iter' and v.a[0] == 'own':
        return [(st, sub(v.a[3], v.a[2]))]
    return NotImplemented


@m('std::slice::Iter::as_slice')
def iter_as_slice(c, st, p):
    v = deref_load(c, st, p, pointee(c, 0))
    if v.op == 'iter' and v.a[0] == 'slice':
        return [(st, c.ip.mkslice(v.a[1], v.a[2], v.a[3], sub(v.a[4], v.a[3])))]
    return NotImplemented


@m('std::iter::Iterator::size_hint', '<std::slice::Iter as std::iter::Iterator>::size_hint', '<std::iter::Map as std::iter::Iterator>::size_hint')
def size_hint(c, st, p):
    return opaque_result(c, st)


def with_iter(c, st, it):
    """an iterator passed by value or by &mut: (root, path, type)"""
    ty = c.atys[0]
    if ty is not None and c.ip.p.tk(ty) == 'ref':
        pl = c.ip.deref(st, it, c.ip.p.types[ty]['e'])
        return pl.root, pl.path, c.ip.p.types[ty]['e']
    root = ('T', c.site[0].uid, c.site[1], 'it')
    st.mem[root] = it
    return root, (), ty


def loop_over(c, st, root, path, ty, body, tag):
    """body(state, item) -> [(None | label, state)]; result: [(label | 'end', state)]"""
    def step(s):
        back, ex = [], []
        for s2, x in iter_next(c, s, root, path, ty):
            if x is None:
                ex.append(('end', s2))
                continue
            for lab, s3 in body(s2, x):
                if lab is None:
                    back.append(s3)
                else:
                    ex.append((lab, s3))
        return back, ex
    return c.ip.fix(c.fr or c.site[0], ('m', c.site[1], tag), [st], step)


def ANY(f):
    return f


@m('<std::slice::Iter as std::iter::Iterator>::any', '<std::slice::Iter as std::iter::Iterator>::all', '<std::slice::Iter as std::iter::Iterator>::position', '<std::slice::Iter as std::iter::Iterator>::find',
   '<std::slice::Iter as std::iter::Iterator>::find_map', '<std::slice::Iter as std::iter::Iterator>::for_each', '<std::slice::Iter as std::iter::Iterator>::fold',
   '<std::vec::IntoIter as std::iter::Iterator>::fold', 'std::iter::Iterator::any', 'std::iter::Iterator::all', 'std::iter::Iterator::find', 'std::iter::Iterator::find_map', 'std::iter::Iterator::position',
   'std::iter::Iterator::for_each', 'std::iter::Iterator::fold', '<std::iter::Map as std::iter::Iterator>::fold', '<std::iter::Cloned as std::iter::Iterator>::fold', '<std::iter::Copied as std::iter::Iterator>::fold',
   '<std::iter::Enumerate as std::iter::Iterator>::fold', '<std::iter::Filter as std::iter::Iterator>::fold', '<std::iter::Chain as std::iter::Iterator>::fold', '<std::iter::Rev as std::iter::Iterator>::fold',
   'std::iter::Iterator::count', '<std::iter::Filter as std::iter::Iterator>::count', 'std::iter::Iterator::last', '<std::iter::Copied as std::iter::Iterator>::count')
def iter_driver(c, st, it, *rest):
    ip = c.ip
    op = c.f['name'] if c.f.get('name') else c.name().split('::')[-1]
    root, path, ty = with_iter(c, st, it)
    u = (c.site[0].uid, c.site[1])
    f = None
    froot = ('T',) + u + ('fn',)
    if op in ('any', 'all', 'find', 'find_map', 'position', 'for_each'):
        st.mem[froot] = rest[0]
    elif op == 'fold':
        st.mem[froot] = rest[1]
    acc = ('T',) + u + ('acc',)
    v = ip.load(st, root, path)
    if op in ('position', 'any', 'find') and v.op == 'iter' and v.a[0] == 'slice':
        fref = mk('ref', froot, ()) if st.mem[froot].op == 'agg' else st.mem[froot]
        ct = ip.load(st, v.a[1], v.a[2])
        if not (sub(v.a[4], v.a[3]).op == 'int' and ct.op == 'seq'):
            ety = ip.elem_type(ct)
            if op == 'find':
                return find_generic(c, st, root, path, ty, froot, acc, op)
            pred = pred_term(c, st, fref, ety)
            out = []
            for found, s, q in find_first(c, st, v.a[1], v.a[2], v.a[3], v.a[4], pred):
                s.mem.pop(froot, None)
                if op == 'any':
                    out.append((s, I(int(found))))
                else:
                    out.append((s, some(c.dty, sub(q, v.a[3])) if found else none(c.dty)))
            return out
    return find_generic(c, st, root, path, ty, froot, acc, op, rest)


def find_generic(c, st, root, path, ty, froot, acc, op, rest=()):
    ip = c.ip
    if op == 'fold':
        st.mem[acc] = rest[0]
    elif op in ('position', 'count'):
        st.mem[acc] = I(0)
    elif op == 'last':
        st.mem[acc] = none(c.dty)

    def body(s, x):
        fn = s.mem.get(froot)
        fref = (mk('ref', froot, ()) if fn.op == 'agg' else fn) if fn is not None else None
        out = []
        if op == 'count':
            s.mem[acc] = addc(s.mem[acc], 1)
            return [(None, s)]
        if op == 'last':
            s.mem[acc] = some(c.dty, x)
            return [(None, s)]
        if op == 'for_each':
            return [(None, s2) for s2, _ in ip.call_value(s, c.fr, fref, [x], None, c.site)]
        if op == 'fold':
            a = s.mem[acc]
            for s2, r in ip.call_value(s, c.fr, fref, [a, x], None, c.site):
                s2.mem[acc] = r
                out.append((None, s2))
            return out
        arg = x
        if op == 'find':
            tmp = ('T', c.site[0].uid, c.site[1], 'cand')
            s.mem[tmp] = x
            arg = mk('ref', tmp, ())
        for s2, r in ip.call_value(s, c.fr, fref, [arg], ip.p.strid.get('bool') if op != 'find_map' else c.dty, c.site):
            if op == 'find_map':
                for var, s3, y in opt_cases(c, s2, r):
                    if var:
                        s3.mem[acc] = r
                        out.append(('hit', s3))
                    else:
                        out.append((None, s3))
                continue
            for t, s3 in split(s2, r):
                hit = t if op != 'all' else not t
                if hit:
                    if op == 'find':
                        s3.mem[acc] = x
                    out.append(('hit', s3))
                else:
                    if op == 'position':
                        s3.mem[acc] = addc(s3.mem[acc], 1)
                    out.append((None, s3))
        return out
    res = []
    for lab, s in loop_over(c, st, root, path, ty, body, op):
        a = s.mem.pop(acc, None)
        s.mem.pop(froot, None)
        if op in ('any',):
            v = I(int(lab == 'hit'))
        elif op == 'all':
            v = I(int(lab == 'end'))
        elif op == 'position':
            v = some(c.dty, a) if lab == 'hit' else none(c.dty)
        elif op == 'find':
            v = some(c.dty, a) if lab == 'hit' else none(c.dty)
        elif op == 'find_map':
            v = a if lab == 'hit' else none(c.dty)
        elif op == 'for_each':
            v = unit(c)
        else:
            v = a
        res.append((s, v))
    return res


def few_items(ip, st, root, path, most=6):
    """how many items are left in an iterator over a literal array, or None"""
    v = ip.load(st, root, path)
    its, work = [], [v]
    while work:
        t = work.pop()
        if t.op == 'iter':
            its.append(t)
        elif t.op == 'agg':
            work += [x for x in t.a[2] if isinstance(x, T)]
        elif t.op == 'adapt':
            return None
    if len(its) != 1 or its[0].a[0] != 'own' or its[0].a[1].op != 'seq':
        return None
    i, n = its[0].a[2], its[0].a[3]
    if i.op == 'int' and n.op == 'int' and n.a[0] - i.a[0] <= most and all(p[0] == 'o' for p in its[0].a[1].a[0]):
        return n.a[0] - i.a[0]
    return None


def accumulate(c, st, init, root, path, ty, ity_elem=None):
    """content built by appending every item of an iterator"""
    ip = c.ip
    acc = ('T', c.site[0].uid, c.site[1], 'acc')
    st.mem[acc] = mk('vec', init)
    cty = init.ty

    def body(s, x):
        old = s.mem[acc].a[0]
        if x.op == 'agg' and x.a[0] is None and cty is not None and ip.p.types[cty].get('e') is not None:
            et = ip.p.types[cty]['e']
            x = mk('agg', et, x.a[1], x.a[2], ty=et)
        s.mem[acc] = mk('vec', ip.concat(s, old, mk('seq', (('o', x),)), ty=cty))
        ip.emit(s, 'item', x)
        return [(None, s)]
    out = []
    n = few_items(ip, st, root, path)
    if n is not None:
        # a literal number of items: one after the other
        work = [st]
        for _ in range(n + 1):
            nxt = []
            for s in work:
                for s2, x in iter_next(c, s, root, path, ty):
                    if x is None:
                        out.append((s2, s2.mem.pop(acc).a[0]))
                    else:
                        nxt += [s3 for _, s3 in body(s2, x)]
            work = nxt
        if not work:
            return out
        raise Unsupported('items of an iterator')
    for lab, s in loop_over(c, st, root, path, ty, body, 'collect'):
        ct = s.mem.pop(acc).a[0]
        if ct.op == 'phi':
            # name the result after the loop that built it
            mkr = s.ev
            col = mk('collected', mkr, ty=cty)
            l1, l2 = ip.length(ct), ip.length(col)
            s.add_eq0(sub(l1, l2))
            ct = col
        out.append((s, ct))
    return out


@m('<std::vec::Vec as std::iter::FromIterator>::from_iter', '<std::boxed::Box as std::iter::FromIterator>::from_iter')
def from_iter(c, st, it):
    ip = c.ip
    root, path, ty = into_iter_place(c, st, it, 0)
    if root is None:
        return NotImplemented
    op = 'box' if ip.p.types[c.dty].get('path') == 'std::boxed::Box' else 'vec'
    return [(s, mk(op, ct, ty=c.dty)) for s, ct in accumulate(c, st, ip.emptyseq(ip.content_ty(c.dty)), root, path, ty)]


def into_iter_place(c, st, it, k):
    """place holding the iterator made from a value passed as `impl IntoIterator`"""
    ip = c.ip
    ty = c.atys[k]
    root = ('T', c.site[0].uid, c.site[1], 'it')
    v = to_iter(c, st, it, ty)
    if v is None:
        return None, None, None
    st.mem[root] = v
    return root, (), ty


def to_iter(c, st, it, ty):
    ip = c.ip
    if it.op == 'iter':
        return it
    t = ip.p.types[ty] if ty is not None else {}
    if t.get('path') in ('std::vec::Vec',):
        ct = ip.proj(st, it, ('v',))
        return mk('iter', 'own', ct, I(0), ip.length(ct))
    if t.get('k') == 'array':
        return mk('iter', 'own', it, I(0), ip.length(it))
    if t.get('k') == 'ref':
        e = ip.p.types[t['e']]
        if e['k'] in ('slice', 'array') or e.get('path') == 'std::vec::Vec':
            root, path, off, n = ip.slice_of(st, it, t['e'])
            return mk('iter', 'slice', root, path, off, add(off, n))
    if t.get('path') == 'std::option::Option':
        return None
    return it


@m('<std::vec::Vec as std::iter::Extend>::extend')
def vec_extend(c, st, p, it):
    ip = c.ip
    root, path = vplace(c, st, p)
    old = ip.load(st, root, path)
    ir, ipth, ity = into_iter_place(c, st, it, 1)
    if ir is None:
        return NotImplemented
    v = st.mem[ir]
    # extending with the elements of a slice of known items or by reference clones them
    clone = False
    if ity is not None and ip.p.tk(ity) == 'ref':
        clone = True
    out = []
    # whole-slice appends keep their structure
    if v.op == 'iter' and v.a[0] == 'own':
        st.mem.pop(ir)
        s = ip.subseq(st, v.a[1], v.a[2], sub(v.a[3], v.a[2]))
        ip.store(st, root, path, ip.concat(st, old, s, ty=old.ty))
        ip.emit(st, 'append', root, path, s)
        return [(st, unit(c))]
    for s, ct in accumulate(c, st, ip.emptyseq(old.ty), ir, ipth, ity):
        o2 = ip.load(s, root, path)
        ip.store(s, root, path, ip.concat(s, o2, ct, ty=old.ty))
        ip.emit(s, 'append', root, path, ct)
        out.append((s, unit(c)))
    return out


@m('core::slice::<impl [T]>::splitn', 'core::slice::<impl [T]>::split')
def splitn(c, st, sl, n, pred=None):
    ip = c.ip
    if c.name().endswith('::split'):
        pred, n = n, I(1 << 40)
    root, path, off, ln = ip.slice_of(st, sl, pointee(c, 0))
    ct = ip.load(st, root, path)
    froot = ('T', c.site[0].uid, c.site[1], 'pred')
    st.mem[froot] = pred
    fref = mk('ref', froot, ()) if pred.op == 'agg' and pred.ty is not None and ip.p.tk(pred.ty) == 'closure' else pred
    pt = pred_term(c, st, fref, ip.elem_type(ct))
    st.mem.pop(froot, None)
    return [(st, mk('iter', 'splitn', root, path, off, add(off, ln), n, pt, ty=c.dty))]


# ---- text -------------------------------------------------------------------------------------
@m('core::str::<impl str>::split', 'core::str::<impl str>::split_terminator', 'core::str::<impl str>::splitn', 'core::str::<impl str>::rsplit', 'core::str::<impl str>::lines', 'core::str::<impl str>::chars', 'core::str::<impl str>::bytes',
   'core::str::<impl str>::split_whitespace', 'core::str::<impl str>::char_indices')
def str_split(c, st, s, *rest):
    ip = c.ip
    kind = c.name().split('::')[-1]
    cc, off, n = ip.slice_content(st, s)
    sub_ = ip.subseq(st, cc, off, n)
    if kind == 'bytes':
        root, path, off, n = ip.slice_of(st, s)
        r = ('C', sub_)
        return [(st, mk('iter', 'own', sub_, I(0), n, ty=c.dty))]
    kb = constbytes(sub_)
    pb = patbytes(c, st, rest[-1], len(c.atys) - 1) if rest else None
    if kb is not None and pb and kind in ('split', 'split_terminator'):
        parts = kb.split(pb)
        if kind == 'split_terminator' and parts and parts[-1] == b'':
            parts = parts[:-1]
        ct = mk('seq', tuple(('o', mkstr(ip, x)) for x in parts), ty=None)
        return [(st, mk('iter', 'own', ct, I(0), I(len(parts)), ty=c.dty))]
    pt = mk('pat', pb) if pb is not None else mk('patv', *rest)
    num = mk('nparts', sub_, kind, pt, rng=(0, ISIZE))
    if kind == 'split':
        st.add_ge0(addc(num, -1))
    return [(st, mk('iter', 'split', sub_, kind, pt, I(0), num, ty=c.dty))]


@m('core::str::<impl str>::strip_prefix', 'core::str::<impl str>::strip_suffix', 'core::slice::<impl [T]>::strip_prefix', 'core::slice::<impl [T]>::strip_suffix')
def strip_prefix(c, st, s, pat):
    ip = c.ip
    pre = c.name().endswith('prefix')
    pb = patbytes(c, st, pat, 1)
    if pb is None:
        try:
            pb = strval(c, st, pat)
        except Exception:
            pb = None
    root, path, off, n = ip.slice_of(st, s, pointee(c, 0))
    if pb is None:
        return opaque_result(c, st)
    ct = ip.load(st, root, path)
    k = len(pb)
    base = off if pre else sub(add(off, n), I(k))
    out = []
    for t, s1 in split(st, ge0(addc(n, -k))):
        if not t:
            out.append((s1, none(c.dty)))
            continue
        cond = conj(ip, [eq0(addc(ip.elem(s1, ct, addc(base, i)), -x)) for i, x in enumerate(pb)])
        for t2, s2 in split(s1, cond):
            if t2:
                out.append((s2, some(c.dty, ip.mkslice(root, path, addc(off, k) if pre else off, addc(n, -k)))))
            else:
                out.append((s2, none(c.dty)))
    return out


@m('core::str::<impl str>::trim', 'core::str::<impl str>::trim_end_matches', 'core::str::<impl str>::trim_start_matches', 'core::str::<impl str>::trim_matches', 'core::str::<impl str>::trim_start', 'core::str::<impl str>::trim_end')
def str_trim(c, st, s, *r):
    ip = c.ip
    cc, off, n = ip.slice_content(st, s)
    t = mk('strfn', c.name().split('::')[-1], ip.subseq(st, cc, off, n), *r, ty=ip.p.strid.get('str'))
    return [(st, mk('slice', ('C', t), (), I(0), ip.length(t)))]


@m('std::str::<impl str>::to_ascii_lowercase', 'std::str::<impl str>::to_lowercase', 'std::str::<impl str>::to_ascii_uppercase', 'std::slice::<impl [u8]>::to_ascii_lowercase', 'std::str::<impl str>::to_uppercase',
   'std::slice::<impl [u8]>::to_ascii_uppercase')
def str_lower(c, st, s):
    ip = c.ip
    cc, off, n = ip.slice_content(st, s)
    x = ip.subseq(st, cc, off, n)
    k = constbytes(x)
    if k is not None and (k.isascii() or 'ascii' in c.name()):
        k = k.lower() if 'lower' in c.name() else k.upper()
        return [(st, mk('vec', mk('seq', tuple(('o', I(v)) for v in k), ty=ip.content_ty(c.dty)), ty=c.dty))]
    t = mk('strfn', c.name().split('::')[-1], x, ty=ip.content_ty(c.dty))
    if 'ascii' in c.name():
        st.add_eq0(sub(ip.length(t), ip.length(x)))
    return [(st, mk('vec', t, ty=c.dty))]


@m('core::str::<impl str>::make_ascii_lowercase')
def str_make_lower(c, st, s):
    ip = c.ip
    root, path, off, n = ip.slice_of(st, s, pointee(c, 0))
    ct = ip.load(st, root, path)
    x = ip.subseq(st, ct, off, n)
    t = mk('strfn', 'to_ascii_lowercase', x, ty=ct.ty)
    st.add_eq0(sub(ip.length(t), ip.length(x)))
    write_content(ip, st, root, path, off, n, t, I(0))
    return [(st, unit(c))]


@m('core::str::<impl str>::eq_ignore_ascii_case', 'core::slice::ascii::<impl [u8]>::eq_ignore_ascii_case')
def str_eqic(c, st, a, b):
    ip = c.ip
    x, y = [ip.subseq(st, *ip.slice_content(st, v)) for v in (a, b)]
    kx, ky = constbytes(x), constbytes(y)
    if kx is not None and ky is not None:
        return [(st, I(int(kx.lower() == ky.lower())))]
    return [(st, TRUE if x is y else mk('eqic', *sorted((x, y), key=lambda t: t.id), rng=(0, 1)))]


@m('std::str::from_utf8', 'std::string::String::from_utf8')
def from_utf8(c, st, v):
    ip = c.ip
    own = c.name().startswith('std::string')
    if own:
        x = ip.proj(st, v, ('v',))
    else:
        cc, off, n = ip.slice_content(st, v)
        x = ip.subseq(st, cc, off, n)
    atom = mk('isutf8', x, rng=(0, 1))
    out = []
    for t, s in split(st, atom):
        if t:
            if own:
                sty = ip.p.fields(c.dty, 0)[0]
                out.append((s, ok(c.dty, mk('vec', x, ty=sty))))
            else:
                out.append((s, ok(c.dty, mk('slice', *ip.slice_of(s, v)))))
        else:
            et = ip.p.fields(c.dty, 1)[0]
            out.append((s, err(c.dty, mk('utf8err', x, ty=et))))
    return out


@m('std::string::String::from_utf8_lossy')
def from_utf8_lossy(c, st, v):
    ip = c.ip
    if ip.p.types[c.dty].get('path') != 'std::borrow::Cow':
        return opaque_result(c, st)
    cc, off, n = ip.slice_content(st, v)
    x = ip.subseq(st, cc, off, n)
    out = []
    for t, s in split(st, mk('isutf8', x, rng=(0, 1))):
        if t:
            out.append((s, mk('agg', c.dty, 0, (mk('slice', *ip.slice_of(s, v)),), ty=c.dty)))
        else:
            oty = ip.p.fields(c.dty, 1)[0]
            out.append((s, mk('agg', c.dty, 1, (mk('vec', mk('strfn', 'from_utf8_lossy', x, ty=ip.content_ty(oty)), ty=oty),), ty=c.dty)))
    return out


@m('core::str::<impl str>::parse')
def str_parse(c, st, s):
    ip = c.ip
    kb = strval(c, st, s)
    okty = ip.p.fields(c.dty, 0)[0]
    if kb is not None and ip.p.ts(okty) == 'std::net::SocketAddr':
        v = parse_sockaddr(ip, okty, kb.decode())
        if v is not None:
            return [(st, ok(c.dty, v))]
    if kb is not None and ip.p.ts(okty) in ('std::net::Ipv4Addr', 'std::net::Ipv6Addr', 'std::net::IpAddr'):
        v = parse_ipaddr(ip, okty, kb.decode())
        if v is not None:
            return [(st, ok(c.dty, v))]
    fi = c.f.get('fi')
    b = ip.p.bodies.get(fi) if fi is not None else None
    if b and b['body'] is not None:
        if fi in ip.summaries:
            r = ip.summaries[fi](c, st, [s])
            if r is not None:
                return r
        return ip.invoke(st, c.fr, b, [s], c.site, c.dty)
    return opaque_result(c, st)


def parse_sockaddr(ip, ty, s):
    import ipaddress
    try:
        host, port = s.rsplit(':', 1)
        a = ipaddress.ip_address(host.strip('[]'))
    except ValueError:
        return None
    var = 0 if a.version == 4 else 1
    inner = ip.p.fields(ty, var)[0]
    fs = ip.p.fields(inner)
    vals = []
    for k, f in enumerate(fs):
        if ip.p.ts(f).startswith('std::net::Ipv'):
            oty = ip.p.fields(f)[0]
            vals.append(mk('agg', f, 0, (mk('seq', tuple(('o', I(x)) for x in a.packed), ty=oty),), ty=f))
        elif ip.p.ts(f) == 'u16':
            vals.append(I(int(port)))
        else:
            vals.append(I(0))
    return enumv(ty, var, mk('agg', inner, 0, tuple(vals), ty=inner))


def parse_ipaddr(ip, ty, s):
    import ipaddress
    try:
        a = ipaddress.ip_address(s)
    except ValueError:
        return None
    name = ip.p.ts(ty)
    if name.endswith('::IpAddr'):
        var = 0 if a.version == 4 else 1
        x = parse_ipaddr(ip, ip.p.fields(ty, var)[0], s)
        return None if x is None else enumv(ty, var, x)
    if not name.endswith('Ipv%dAddr' % a.version):
        return None
    return mk('agg', ty, 0, (mk('seq', tuple(('o', I(x)) for x in a.packed), ty=ip.p.fields(ty)[0]),), ty=ty)


# ---- formatting and logging -------------------------------------------------------------------
@m('core::fmt::rt::Argument::new_debug', 'core::fmt::rt::Argument::new_display', 'core::fmt::rt::Argument::new_lower_hex', 'core::fmt::rt::Argument::new_upper_hex', 'core::fmt::rt::Argument::new_binary',
   'core::fmt::rt::Argument::from_usize', 'core::fmt::rt::Argument::new_pointer', 'core::fmt::rt::Argument::new_octal', 'core::fmt::rt::Argument::none')
def fmt_arg(c, st, *a):
    if c.ip.opts.get('fmt') and a:
        v, ty = printed_value(c, st, a[0], c.atys[0])
        return [(st, mk('fmtarg', c.name().split('::')[-1][4:], v, ty, ty=c.dty))]
    return [(st, mk('fmtarg', ty=c.dty))]


def printed_value(c, st, v, ty):
    """the value behind references, and its type; text as a slice"""
    p = c.ip.p
    while ty is not None and p.tk(ty) == 'ref':
        e = p.types[ty]['e']
        if p.tk(e) in ('slice', 'str'):
            return v, e
        if p.tk(e) not in ('ref',) and p.types[e].get('path') in ('std::string::String',):
            root, path, off, n = c.ip.slice_of(st, v, e)
            return mk('slice', root, path, off, n), e
        v = deref_load(c, st, v, e)
        ty = e
    return v, ty


def fmt_template(b):
    """pieces of a format template: ('lit', text) or ('arg', index, options)"""
    out, i, k = [], 0, 0
    while i < len(b) and b[i]:
        x = b[i]
        i += 1
        if x < 0x80 or x == 0x80:
            n = x
            if x == 0x80:
                n = b[i] | b[i + 1] << 8
                i += 2
            out.append(('lit', b[i:i + n]))
            i += n
            continue
        if x & 0xc0 != 0xc0:
            return None
        o = []
        for bit, w in ((1, 4), (2, 2), (4, 2)):
            if x & bit:
                o.append(int.from_bytes(b[i:i + w], 'little'))
                i += w
            else:
                o.append(None)
        if x & 8:
            k = b[i] | b[i + 1] << 8
            i += 2
        out.append(('arg', k, tuple(o) + (x >> 4 & 3,)))
        k += 1
    return out if i < len(b) else None


@m('std::fmt::Arguments::new', 'std::fmt::Arguments::from_str', 'std::fmt::Arguments::new_const', 'std::fmt::Arguments::new_v1', 'std::fmt::Arguments::new_v1_formatted', 'std::fmt::Arguments::from_str_nonconst')
def fmt_args(c, st, *a):
    if c.ip.opts.get('fmt'):
        r = fmt_pieces(c, st, a)
        if r is not None:
            return [(st, mk('fmtargs', tuple(r), ty=c.dty))]
        return [(st, mk('fmtargs', ty=c.dty))]
    return [(st, mk('fmtargs', ty=c.dty))]


def fmt_pieces(c, st, a):
    try:
        tb = strval(c, st, a[0])
    except Exception:
        tb = None
    if tb is None:
        return None
    if len(a) == 1:
        return [('lit', tb)]
    ps = fmt_template(tb)
    if ps is None or c.name().split('::')[-1] != 'new':
        return None
    ct, off, n = c.ip.slice_content(st, a[1])
    out = []
    for q in ps:
        if q[0] == 'lit':
            out.append(q)
            continue
        x = c.ip.elem(st, ct, addc(off, q[1]))
        if x.op != 'fmtarg' or not x.a:
            return None
        out.append(('show',) + tuple(x.a) + (q[2],))
    return out


def out_pieces(c, st, pieces):
    """text goes out: noted as events"""
    ip = c.ip
    for q in pieces:
        ip.emit(st, 'out', *q)
        if ip.outs is not None:
            ip.outs.append((st.copy(), q, c))


def printing(c, st, a):
    """what a formatter method prints"""
    n = c.name().split('::')[-1]
    full = c.name()
    if n in ('write_fmt', 'write') and len(a) == 2:
        x = a[1]
        return x.a[0] if x.op == 'fmtargs' and x.a else [('args', x)]
    if n == 'write_str' or n in ('pad',) or n == 'pad_integral':
        return [('show', 'display', a[-1], c.ip.p.strid.get('str'), None)]
    if n == 'write_char':
        return [('show', 'display', a[1], c.ip.p.strid.get('char'), None)]
    if full.startswith('std::fmt::Formatter::debug_') or full.startswith('std::fmt::Debug'):
        return [('debug', n)]
    if n == 'fmt':
        v, ty = printed_value(c, st, a[0], c.atys[0])
        if c.ip.p.ts(ty).startswith('std::fmt::Arguments'):
            return v.a[0] if v.op == 'fmtargs' and v.a else [('args', v)]
        tr = 'debug' if 'fmt::Debug' in full else 'display' if 'fmt::Display' in full else 'number'
        return [('show', tr, v, ty, None)]
    return [('?', full)]


def fmt_write(c, st, *a):
    # whatever is printed, the result is Ok or Err
    if c.ip.opts.get('fmt'):
        out_pieces(c, st, printing(c, st, a))
        # a writer may fail at any time
        return [(st, fresh(c, st, 'fmt', c.dty))]
    return opaque_result(c, st, 'fmt')


for _n in ('std::fmt::Formatter::write_str', 'std::fmt::Formatter::write_fmt', '<std::fmt::Formatter as std::fmt::Write>::write_char', '<std::fmt::Formatter as std::fmt::Write>::write_str', '<std::fmt::Formatter as std::fmt::Write>::write_fmt',
           'std::fmt::Formatter::debug_c_like_enum_write_str', 'std::fmt::Formatter::debug_struct_field1_finish', 'std::fmt::Formatter::debug_struct_field2_finish', 'std::fmt::Formatter::debug_struct_field3_finish',
           'std::fmt::Formatter::debug_struct_field4_finish', 'std::fmt::Formatter::debug_struct_field5_finish', 'std::fmt::Formatter::debug_struct_fields_finish', 'std::fmt::Formatter::debug_tuple_field1_finish',
           'std::fmt::Formatter::debug_tuple_field2_finish', 'std::fmt::Formatter::debug_tuple_field3_finish', 'std::fmt::Formatter::debug_tuple_field4_finish', 'std::fmt::Formatter::debug_tuple_fields_finish',
           'std::fmt::DebugStruct::finish', 'std::fmt::DebugTuple::finish', 'std::fmt::DebugList::finish', 'std::fmt::DebugMap::finish', 'std::fmt::Formatter::pad', 'std::fmt::Formatter::pad_integral',
           '<&mut W as std::fmt::Write>::write_fmt', '<&mut W as std::fmt::Write>::write_str', '<std::ascii::EscapeDefault as std::fmt::Debug>::fmt', '<std::ascii::EscapeDefault as std::fmt::Display>::fmt',
           '<std::net::Ipv4Addr as std::fmt::Display>::fmt', '<std::net::Ipv6Addr as std::fmt::Display>::fmt', '<std::net::Ipv4Addr as std::fmt::Debug>::fmt', '<std::net::Ipv6Addr as std::fmt::Debug>::fmt',
           '<std::slice::EscapeAscii as std::fmt::Display>::fmt', '<str as std::fmt::Debug>::fmt', '<str as std::fmt::Display>::fmt', 'std::fmt::write', 'std::fmt::Write::write_fmt',
           '<std::string::String as std::fmt::Display>::fmt', '<std::string::String as std::fmt::Debug>::fmt', '<std::net::SocketAddr as std::fmt::Display>::fmt', '<std::net::IpAddr as std::fmt::Display>::fmt',
           '<std::fmt::Arguments as std::fmt::Display>::fmt', '<std::fmt::Arguments as std::fmt::Debug>::fmt', '<std::io::Error as std::fmt::Display>::fmt', '<std::io::Error as std::fmt::Debug>::fmt',
           '<std::ascii::EscapeDefault as std::fmt::Display>::fmt', '<char as std::fmt::Display>::fmt', '<char as std::fmt::Debug>::fmt', '<bool as std::fmt::Display>::fmt', '<bool as std::fmt::Debug>::fmt'):
    M[_n] = fmt_write
for _t in ('u8', 'u16', 'u32', 'u64', 'usize', 'i32', 'i64', 'isize', 'u128', 'i8', 'i16'):
    for _k in ('Binary', 'LowerHex', 'UpperHex', 'Octal', 'Display', 'Debug'):
        M['core::fmt::num::<impl std::fmt::%s for %s>::fmt' % (_k, _t)] = fmt_write
        M['core::fmt::num::imp::<impl std::fmt::%s for %s>::fmt' % (_k, _t)] = fmt_write


@m('std::fmt::DebugStruct::field', 'std::fmt::DebugTuple::field', 'std::fmt::DebugList::entry', 'std::fmt::DebugMap::entry')
def dbg_field(c, st, p, *a):
    return [(st, p)]


@m('std::fmt::Formatter::debug_struct', 'std::fmt::Formatter::debug_tuple', 'std::fmt::Formatter::debug_list', 'std::fmt::Formatter::debug_map', 'std::fmt::DebugStruct::new')
def dbg_struct(c, st, *a):
    return opaque_result(c, st)


@m('std::fmt::format', 'std::fmt::format::format_inner', 'std::fmt::Arguments::to_string')
def fmt_format(c, st, *a):
    if c.ip.opts.get('fmt'):
        x = a[0]
        ct = mk('printed', x.a[0] if x.op == 'fmtargs' and x.a else (('args', x),), ty=c.ip.p.strid.get('str'))
        return [(st, mk('vec', ct, ty=c.dty))]
    return opaque_result(c, st)


@m('core::slice::ascii::<impl [u8]>::escape_ascii', 'core::num::<impl u8>::escape_ascii', 'std::ascii::escape_default', 'log::__private_api::loc', 'core::char::methods::<impl char>::escape_default',
   'core::str::<impl str>::escape_debug', 'core::str::<impl str>::escape_default')
def opaque_pure(c, st, *a):
    if c.ip.opts.get('fmt') and a and 'log' not in c.name():
        v, ty = printed_value(c, st, a[0], c.atys[0])
        return [(st, mk('pure', c.name(), v, ty=c.dty))]
    return [(st, mk('pure', c.name(), ty=c.dty))]


@m('log::__private_api::log', 'log::__private_api::log_impl')
def log_log(c, st, *a):
    if c.ip.opts.get('fmt'):
        x = next((y for y in a if y.op == 'fmtargs'), a[0])
        c.ip.emit(st, 'log')
        out_pieces(c, st, x.a[0] if x.op == 'fmtargs' and x.a else [('args', x)])
    return [(st, unit(c))]


@m('log::max_level')
def log_max(c, st):
    return [(st, mk('loglevel', ty=c.dty))]


@m('<log::Level as std::cmp::PartialOrd>::partial_cmp', '<log::Level as std::cmp::PartialOrd>::le', '<log::LevelFilter as std::cmp::PartialOrd>::partial_cmp')
def log_cmp(c, st, *a):
    if c.dty is not None and c.ip.p.ts(c.dty) == 'bool':
        return [(st, mk('logon', rng=(0, 1)))]
    return opaque_result(c, st, 'logcmp')


@m('core::num::<impl u8>::is_ascii_graphic', 'core::num::<impl u8>::is_ascii', 'core::num::<impl u8>::is_ascii_alphanumeric', 'core::num::<impl u8>::is_ascii_control')
def u8_pred(c, st, p):
    v = deref_load(c, st, p, pointee(c, 0))
    n = c.name().split('::')[-1]
    if c.ip.opts.get('fmt') and n in U8RANGES:
        out, at = [], 0
        for lo, hi in U8RANGES[n] + [(256, 256)]:
            for x, y, r in ((at, lo - 1, 0), (lo, hi, 1)):
                if x <= y and x < 256:
                    s2 = st.copy()
                    if s2.add_ge0(addc(v, -x)) and s2.add_ge0(addc(sub(I(0), v), y)):
                        out.append((s2, I(r)))
            at = hi + 1
        return out
    return [(st, mk('u8pred', n, v, rng=(0, 1)))]


@m('core::str::<impl str>::is_ascii', 'core::slice::ascii::<impl [u8]>::is_ascii')
def text_is_ascii(c, st, v):
    ct, off, n = c.ip.slice_content(st, v)
    return [(st, mk('isascii', c.ip.subseq(st, ct, off, n), rng=(0, 1)))]


U8RANGES = {'is_ascii_graphic': [(0x21, 0x7e)], 'is_ascii': [(0, 0x7f)], 'is_ascii_alphanumeric': [(0x30, 0x39), (0x41, 0x5a), (0x61, 0x7a)], 'is_ascii_control': [(0, 0x1f), (0x7f, 0x7f)]}


# ---- hashing / comparing ----------------------------------------------------------------------
@m('<std::boxed::Box as std::hash::Hash>::hash', 'core::hash::impls::<impl std::hash::Hash for isize>::hash', 'core::hash::impls::<impl std::hash::Hash for u16>::hash', '<std::vec::Vec as std::hash::Hash>::hash',
   'core::hash::impls::<impl std::hash::Hash for u8>::hash')
def hash_(c, st, *a):
    return [(st, unit(c))]


# ---- maps -------------------------------------------------------------------------------------
def mplace(c, st, p, k=0):
    pl = c.ip.deref(st, p, pointee(c, k))
    v = c.ip.load(st, pl.root, pl.path)
    if v.ty is None and pointee(c, k) is not None:
        v.ty = pointee(c, k)
    return pl


for _mp in ('std::collections::BTreeMap', 'std::collections::HashMap', 'std::collections::BTreeSet', 'std::collections::HashSet', 'std::collections::hash_map::HashMap', 'std::collections::btree_map::BTreeMap'):
    def _reg(mp):
        @m(mp + '::new', mp + '::with_capacity', '<%s as std::default::Default>::default' % mp)
        def map_new(c, st, *a):
            return [(st, mk('map', 'empty', ty=c.dty))]

        @m(mp + '::insert')
        def map_insert(c, st, p, k, v=None):
            ip = c.ip
            pl = mplace(c, st, p)
            old = ip.load(st, pl.root, pl.path)
            out = []
            for there, s in map_has(c, st, old, k):
                ip.store(s, pl.root, pl.path, mk('map', 'ins', old, k, v if v is not None else I(0), ty=old.ty))
                if v is None:
                    ip.emit(s, 'map.set' if there else 'map.insert', pl.root, pl.path, k, I(0))
                    out.append((s, I(int(not there))))
                else:
                    ip.emit(s, 'map.replace' if there else 'map.insert', pl.root, pl.path, k, v)
                    t = ip.p.types[c.dty]
                    out.append((s, some(c.dty, mk('mapold', old, k, ty=ip.p.fields(c.dty, 1)[0])) if there else none(c.dty)))
            return out

        @m(mp + '::get', mp + '::get_mut')
        def map_get(c, st, p, k):
            ip = c.ip
            pl = mplace(c, st, p)
            mp_ = ip.load(st, pl.root, pl.path)
            kv = key_value(c, st, k, 1)
            out = []
            for there, s in map_has(c, st, mp_, kv):
                if there:
                    vt = ip.p.types[c.dty]['args'][0]
                    et = ip.p.types[vt].get('e')
                    val = mk('mapget', mp_, kv, ty=et)
                    ip.emit(s, 'map.get', mp_, kv)
                    if c.name().endswith('get_mut'):
                        out.append((s, some(c.dty, mk('ref', ('M', pl.root, pl.path, kv), ()))))
                    else:
                        out.append((s, some(c.dty, mk('ref', ('K', val), ()))))
                else:
                    ip.emit(s, 'map.miss', mp_, kv)
                    out.append((s, none(c.dty)))
            return out

        @m(mp + '::contains_key', mp + '::contains')
        def map_contains(c, st, p, k):
            ip = c.ip
            pl = mplace(c, st, p)
            mp_ = ip.load(st, pl.root, pl.path)
            kv = key_value(c, st, k, 1)
            return [(s, I(int(t))) for t, s in map_has(c, st, mp_, kv)]

        @m(mp + '::clear')
        def map_clear(c, st, p):
            pl = mplace(c, st, p)
            old = c.ip.load(st, pl.root, pl.path)
            c.ip.store(st, pl.root, pl.path, mk('map', 'empty', ty=old.ty))
            c.ip.emit(st, 'map.clear', pl.root, pl.path)
            return [(st, unit())]

        @m(mp + '::is_empty')
        def map_is_empty(c, st, p):
            ip = c.ip
            pl = mplace(c, st, p)
            mp_ = ip.load(st, pl.root, pl.path)
            return [(st, eq0(maplen(mp_)))]

        @m(mp + '::len')
        def map_len(c, st, p):
            ip = c.ip
            pl = mplace(c, st, p)
            return [(st, maplen(ip.load(st, pl.root, pl.path)))]

        @m(mp + '::iter', mp + '::values', mp + '::keys', '<&%s as std::iter::IntoIterator>::into_iter' % mp)
        def map_iter(c, st, p):
            ip = c.ip
            pl = mplace(c, st, p)
            mp_ = ip.load(st, pl.root, pl.path)
            mode = c.name().split('::')[-1]
            return [(st, mk('iter', 'map', mp_, mode if mode in ('values', 'keys') else 'iter', I(0), maplen(mp_), ty=c.dty))]

        @m(mp + '::entry')
        def map_entry(c, st, p, k):
            ip = c.ip
            pl = mplace(c, st, p)
            mp_ = ip.load(st, pl.root, pl.path)
            out = []
            hashm = 'Hash' in c.name()
            for there, s in map_has(c, st, mp_, k):
                # BTreeMap: Vacant = 0, Occupied = 1; HashMap: Occupied = 0, Vacant = 1
                names = [v['n'] for v in ip.p.types[c.dty]['v']]
                var = names.index('Occupied' if there else 'Vacant')
                et = ip.p.fields(c.dty, var)[0]
                e = mk('mentry', 'occ' if there else 'vac', pl.root, pl.path, k, ty=et)
                out.append((s, enumv(c.dty, var, e)))
            return out
    _reg(_mp)


def key_value(c, st, k, i):
    """the key a lookup by reference uses, as an owned-value-like term"""
    ip = c.ip
    ty = pointee(c, i)
    t = ip.p.types[ty] if ty is not None else {}
    if t.get('k') in ('str', 'slice'):
        cc, off, n = ip.slice_content(st, k)
        return mk('vec', ip.subseq(st, cc, off, n), ty=ip.p.strid.get('std::string::String'))
    return deref_load(c, st, k, ty)


def maplen(m_):
    if m_.op == 'map' and m_.a[0] == 'empty':
        return I(0)
    return mk('maplen', m_, rng=(0, ISIZE))


def map_has(c, st, mp, k):
    """[(key is present, state)]"""
    if mp.op == 'map' and mp.a[0] == 'empty':
        return [(False, st)]
    if mp.op == 'map' and mp.a[0] == 'ins':
        e = value_eq(c.ip, st, mp.a[2], k)
        out = []
        for t, s in split(st, e):
            if t:
                out.append((True, s))
            else:
                out += map_has(c, s, mp.a[1], k)
        return out
    return split(st, mk('inmap', mp, k, rng=(0, 1)))


for _e in ('std::collections::btree_map::', 'std::collections::hash_map::', 'std::collections::btree_map::entry::', 'std::collections::hash::map::'):
    def _rege(e):
        @m(e + 'VacantEntry::insert', e + 'VacantEntry::insert_entry')
        def vacant_insert(c, st, ent, v):
            return entry_insert(c, st, ent, v)

        @m(e + 'VacantEntry::key', e + 'OccupiedEntry::key', e + 'Entry::key')
        def entry_key(c, st, p):
            x = deref_load(c, st, p, pointee(c, 0))
            if x.op == 'agg':
                x = x.a[2][0]
            if x.op != 'mentry':
                return NotImplemented
            return [(st, mk('ref', ('C', x.a[3]), ()))]

        @m(e + 'VacantEntry::into_key')
        def entry_into_key(c, st, x):
            return [(st, x.a[3])] if x.op == 'mentry' else NotImplemented

        @m(e + 'Entry::or_insert', e + 'Entry::or_insert_with', e + 'Entry::or_default', e + 'Entry::or_insert_entry')
        def or_insert(c, st, x, v=None):
            if x.op != 'agg' or x.a[2][0].op != 'mentry':
                return NotImplemented
            ent = x.a[2][0]
            if ent.a[0] == 'occ':
                return [(st, mk('ref', ('M', ent.a[1], ent.a[2], ent.a[3]), ()))]
            out = []
            if c.name().endswith('_with'):
                for s, r in c.ip.call_value(st, c.fr, v, [], None, c.site):
                    out += entry_insert(c, s, ent, r)
                return out
            if v is None:
                v = default_value(c.ip, c.ip.p.types[c.dty]['e']) or fresh(c, st, 'default')
            return entry_insert(c, st, ent, v)

        @m(e + 'OccupiedEntry::insert')
        def occ_insert(c, st, p, v):
            x = deref_load(c, st, p, pointee(c, 0))
            if x.op != 'mentry':
                return NotImplemented
            mp = c.ip.load(st, x.a[1], x.a[2])
            c.ip.store(st, x.a[1], x.a[2], mk('map', 'ins', mp, x.a[3], v, ty=mp.ty))
            c.ip.emit(st, 'map.replace', x.a[1], x.a[2], x.a[3], v)
            return [(st, mk('mapold', mp, x.a[3], ty=c.dty))]

        @m(e + 'Entry::and_modify')
        def and_modify(c, st, x, f):
            if x.op != 'agg' or x.a[2][0].op != 'mentry':
                return NotImplemented
            ent = x.a[2][0]
            if ent.a[0] != 'occ':
                return [(st, x)]
            return [(s, x) for s, r in c.ip.call_value(st, c.fr, f, [mk('ref', ('M', ent.a[1], ent.a[2], ent.a[3]), ())], None, c.site)]

        @m(e + 'OccupiedEntry::get', e + 'OccupiedEntry::get_mut', e + 'OccupiedEntry::into_mut')
        def occ_get(c, st, p):
            x = deref_load(c, st, p, pointee(c, 0)) if p.op != 'mentry' else p
            if x.op != 'mentry':
                return NotImplemented
            if c.name().endswith('get'):
                mp = c.ip.load(st, x.a[1], x.a[2])
                return [(st, mk('ref', ('K', mk('mapget', mp, x.a[3], ty=c.ip.p.types[c.dty].get('e'))), ()))]
            return [(st, mk('ref', ('M', x.a[1], x.a[2], x.a[3]), ()))]
    _rege(_e)


def map_lookup(ip, st, mp, k, ty=None):
    """the value a map has for a key it contains"""
    if mp.op == 'map' and mp.a[0] == 'ins':
        e = value_eq(ip, st, mp.a[2], k)
        t = st.truth(e)
        if t:
            return mp.a[3]
        if t is False:
            return map_lookup(ip, st, mp.a[1], k, ty)
    if ty is None and mp.ty is not None:
        args = ip.p.types[mp.ty].get('args') or []
        ty = args[1] if len(args) > 1 else None
    return mk('mapget', mp, k, ty=ty)


def map_load(ip, st, root):
    return map_lookup(ip, st, ip.load(st, root[1], root[2]), root[3])


def map_store(ip, st, root, path, val):
    mp = ip.load(st, root[1], root[2])
    old = map_lookup(ip, st, mp, root[3])
    new = ip.setproj(st, old, path, val, old.ty) if path else val
    if new is old:
        return
    if mp.op == 'map' and mp.a[0] == 'ins' and mp.a[2] is root[3]:
        mp = mp.a[1]
    ip.store(st, root[1], root[2], mk('map', 'ins', mp, root[3], new, ty=mp.ty))
    ip.emit(st, 'map.replace', root[1], root[2], root[3], new)


M['@map_load'] = map_load
M['@map_store'] = map_store


def entry_insert(c, st, ent, v):
    ip = c.ip
    if ent.op != 'mentry':
        return NotImplemented
    _, root, path, k = ent.a
    mp = ip.load(st, root, path)
    ip.store(st, root, path, mk('map', 'ins', mp, k, v, ty=mp.ty))
    ip.emit(st, 'map.insert', root, path, k, v)
    return [(st, mk('ref', ('M', root, path, k), ()))]


# ---- time -------------------------------------------------------------------------------------
@m('std::time::Instant::now')
def now(c, st):
    r = fresh(c, st, 'now', c.dty)
    c.ip.emit(st, 'now', r)
    return [(st, r)]


@m('std::time::Instant::elapsed')
def elapsed(c, st, p):
    v = deref_load(c, st, p, pointee(c, 0))
    r = fresh(c, st, 'elapsed', c.dty)
    c.ip.emit(st, 'elapsed', v, r)
    return [(st, r)]


def isdur(c, k):
    ty = c.atys[k]
    while ty is not None and c.ip.p.tk(ty) == 'ref':
        ty = c.ip.p.types[ty]['e']
    return ty is not None and c.ip.p.ts(ty) in ('std::time::Duration', 'std::time::Instant')


@m('std::cmp::PartialOrd::ge', 'std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::gt', '<std::time::Duration as std::cmp::PartialOrd>::ge', '<std::time::Duration as std::cmp::PartialOrd>::lt',
   '<std::time::Duration as std::cmp::PartialOrd>::le', '<std::time::Duration as std::cmp::PartialOrd>::gt')
def dur_cmp(c, st, a, b):
    if c.ip.p.ts(c.atys[0]).endswith('log::Level') or 'log::Level' in c.ip.p.ts(c.atys[0]):
        return [(st, mk('logon', rng=(0, 1)))]
    if not isdur(c, 0):
        return NotImplemented
    x, y = deref_load(c, st, a, pointee(c, 0)), deref_load(c, st, b, pointee(c, 1))
    k = c.f['name']
    if k == 'ge':
        r = dur_ge(x, y)
    elif k == 'le':
        r = dur_ge(y, x)
    elif k == 'lt':
        r = bnot_bool(dur_ge(x, y))
    else:
        r = bnot_bool(dur_ge(y, x))
    return [(st, r)]


def dur_zero(x):
    return x.op == 'agg' and all(is_int0(y) for y in x.a[2])


def is_int0(x):
    return (x.op == 'int' and x.a[0] == 0) or (x.op == 'agg' and all(is_int0(y) for y in x.a[2]))


LEFT = ('saturating_sub', 'saturating_duration_since', 'sub', 'duration_since')    # (the last two panic or give 0 when there is nothing left)


def dur_ge(x, y):
    """x >= y; what is left of a time after another is compared as the two times"""
    if dur_zero(y) or x is y:
        return I(1)
    if dur_zero(x) and y.op == 'durfn' and y.a[0] in LEFT:
        return dur_ge(y.a[2], y.a[1])
    return mk('durge', x, y, rng=(0, 1))


@m('std::time::Duration::is_zero')
def dur_is_zero(c, st, p):
    x = deref_load(c, st, p, pointee(c, 0)) if c.ip.p.tk(c.atys[0]) == 'ref' else p
    if dur_zero(x):
        return [(st, I(1))]
    if x.op == 'durfn' and x.a[0] in LEFT:
        return [(st, dur_ge(x.a[2], x.a[1]))]
    return [(st, mk('durge', mk('agg', None, 0, ()), x, rng=(0, 1)))]


@m('<std::time::Duration as std::cmp::PartialEq>::eq', '<std::time::Instant as std::cmp::PartialEq>::eq')
def dur_eq(c, st, a, b):
    x, y = deref_load(c, st, a, pointee(c, 0)), deref_load(c, st, b, pointee(c, 1))
    for u, v in ((x, y), (y, x)):
        if dur_zero(v):
            return [(st, dur_ge(v, u))]
    return [(st, mk('dureq', x, y, rng=(0, 1)))]


@m('std::time::Duration::checked_sub', 'std::time::Instant::checked_duration_since')
def dur_checked_sub(c, st, x, y):
    """None just when y is longer (later) than x"""
    cond = dur_ge(x, y)
    r = durfn(c, st, x, y, name={'checked_sub': 'sub', 'checked_duration_since': 'duration_since'}[c.name().split('::')[-1]], ty=c.ip.p.fields(c.dty, 1)[0])[0][1]
    return [(s, some(c.dty, r) if b else none(c.dty)) for b, s in split(st, bnot_bool(eq0(cond)))]


@m('std::time::Instant::checked_add', 'std::time::Duration::checked_add')
def dur_checked_add(c, st, x, y):
    r = durfn(c, st, x, y, name='add', ty=c.ip.p.fields(c.dty, 1)[0])[0][1]
    return [(st.copy(), none(c.dty)), (st, some(c.dty, r))]


def durfn(c, st, *a, name=None, ty=None):
    xs = []
    for k, v in enumerate(a):
        if c.atys[k] is not None and c.ip.p.tk(c.atys[k]) == 'ref':
            v = deref_load(c, st, v, pointee(c, k))
        xs.append(v)
    name = name or c.name().split('::')[-1]
    t = mk('durfn', name, *xs, ty=ty or c.dty, rng=c.ip.p.irange(ty or c.dty))
    if any(c.ip.p.ts(x) == 'std::time::Instant' for x in c.atys if x is not None):
        c.ip.emit(st, 'timefn', name, tuple(xs), t)
    return [(st, t)]


for _n in ('saturating_sub', 'saturating_add', 'as_millis', 'as_secs', 'from_millis', 'from_secs', 'mul_f64', 'as_secs_f64', 'from_secs_f64', 'as_micros', 'as_nanos', 'from_micros', 'from_nanos',
           'saturating_mul', 'checked_mul', 'div_f64', 'subsec_millis'):
    M['std::time::Duration::' + _n] = durfn
for _n in ('duration_since', 'saturating_duration_since', 'checked_sub'):
    M['std::time::Instant::' + _n] = durfn
for _n in ('<std::time::Instant as std::ops::Add>::add', '<std::time::Instant as std::ops::Sub>::sub', '<std::time::Duration as std::ops::Add>::add', '<std::time::Duration as std::ops::Sub>::sub', '<std::time::Duration as std::ops::Mul>::mul',
           '<std::time::Duration as std::ops::Div>::div', '<std::time::Duration as std::cmp::Ord>::min', '<std::time::Duration as std::cmp::Ord>::max'):
    M[_n] = durfn


# ---- io ---------------------------------------------------------------------------------------
def io_result(c, st, ev, okval, tag):
    """Ok(okval) or an I/O error; the event carries the outcome"""
    ip = c.ip
    s2 = st.copy()
    e = fresh(c, s2, tag + '.err', ip.p.fields(c.dty, 1)[0])
    v = okval(st)
    ip.emit(st, *(ev(st) + ('ok', v, c.site[2])))
    ip.emit(s2, *(ev(s2) + ('err', e, c.site[2])))
    return [(st, ok(c.dty, v)), (s2, err(c.dty, e))]


def valof(c, st, v, k):
    """argument value, references to plain values resolved"""
    ty = c.atys[k]
    while ty is not None and c.ip.p.tk(ty) == 'ref':
        e = c.ip.p.types[ty]['e']
        if c.ip.p.tk(e) in ('slice', 'str'):
            return v
        v = deref_load(c, st, v, e)
        ty = e
    return v


@m('std::net::UdpSocket::bind', 'socket2::Socket::new', 'socket2::socket::Socket::new', 'async_io::Async::bind', 'async_io::Async::new')
def sock_bind(c, st, *a):
    ip = c.ip
    vals = tuple(valof(c, st, v, k) for k, v in enumerate(a))
    oty = ip.p.fields(c.dty, 0)[0]
    if c.name().split('::')[-1] == 'new' and 'async_io' in c.name():
        return io_result(c, st, lambda s: ('async.new',) + vals, lambda s: mk('asyncsock', *vals, ty=oty), 'async')
    return io_result(c, st, lambda s: ('sock.' + c.name().split('::')[-1],) + vals, lambda s: fresh(c, s, 'sock', oty), 'bind')


@m(*[b + n for b in ('std::net::UdpSocket::', 'socket2::Socket::', 'socket2::socket::Socket::') for n in (
    'set_read_timeout', 'set_write_timeout', 'join_multicast_v4', 'join_multicast_v6', 'leave_multicast_v4', 'leave_multicast_v6', 'set_multicast_loop_v4', 'set_multicast_loop_v6',
    'set_multicast_ttl_v4', 'set_nonblocking', 'set_broadcast', 'set_ttl', 'connect', 'bind', 'set_reuse_address', 'set_reuse_port',
    'set_multicast_if_v4', 'set_multicast_if_v6', 'set_multicast_hops_v6', 'set_only_v6', 'set_multicast_all_v4', 'set_recv_buffer_size', 'set_send_buffer_size', 'join_multicast_v4_n',
    'leave_multicast_v4_n', 'set_ttl_v4', 'set_unicast_hops_v6') if (b, n) != ('std::net::UdpSocket::', 'bind')])
def sock_opt(c, st, *a):
    vals = tuple(valof(c, st, v, k) for k, v in enumerate(a))
    return io_result(c, st, lambda s: ('opt.' + c.name().split('::')[-1], a[0]) + vals, lambda s: c.ip.zst(c.ip.p.fields(c.dty, 0)[0]), c.name().split('::')[-1])


def sl_arg(c, st, v):
    """(content term, off, len) of a byte-slice argument"""
    return c.ip.slice_content(st, v)


def addr_of(c, st, v, k):
    return valof(c, st, v, k)


@m('std::net::UdpSocket::send_to', 'std::net::UdpSocket::send')
def send_to(c, st, s, buf, addr=None):
    ct, off, n = sl_arg(c, st, buf)
    ad = valof(c, st, addr, 2) if addr is not None else I(0)
    sv = deref_load(c, st, s, pointee(c, 0))
    return io_result(c, st, lambda x: ('send', sv, c.ip.subseq(x, ct, off, n), ad, ct, off, n), lambda x: fresh(c, x, 'sent', c.ip.p.fields(c.dty, 0)[0]), 'send')


def do_recv(ip, c, st, sv, buf, okty, errty, key, span, mkok, mkerr):
    """one receive: a datagram of at most the buffer's length, or an error"""
    if ip.norecv:
        return []
    root, path, off, n = ip.slice_of(st, buf)
    s2 = st.copy()
    us = ip.p.strid.get('usize')
    ln = mk('ret', *key, 'recvlen', ty=us, rng=(0, ISIZE))
    pkt = mk('ret', *key, 'packet', ty=ip.p.strid.get('[u8]'))
    tupf = ip.p.fields(okty)
    ad = mk('ret', *key, 'from', ty=tupf[1])
    e = mk('ret', *key, 'recverr', ty=errty)
    for t in (ln, pkt, ad):
        t.syms = frozenset((t,))
        freshen(c, st, t)
    e.syms = frozenset((e,))
    freshen(c, s2, e)
    st.add_ge0(sub(n, ln))
    write_content(ip, st, root, path, off, ln, pkt, I(0))
    # write_content drops the information when nothing is known: make it explicit
    ip.emit(st, 'recv', sv, ('ok', pkt, ln, ad), n, root, path, span)
    ip.emit(s2, 'recv', sv, ('err', e), n, root, path, span)
    return [(st, mkok(mk('agg', okty, 0, (ln, ad), ty=okty))), (s2, mkerr(e))]


@m('std::net::UdpSocket::recv_from', 'std::net::UdpSocket::peek_from')
def recv_from(c, st, s, buf):
    ip = c.ip
    sv = deref_load(c, st, s, pointee(c, 0))
    okty, errty = ip.p.fields(c.dty, 0)[0], ip.p.fields(c.dty, 1)[0]
    return do_recv(ip, c, st, sv, buf, okty, errty, (c.site[0].uid, c.site[1]), c.site[2], lambda v: ok(c.dty, v), lambda e: err(c.dty, e))


@m('<socket2::SockAddr as std::convert::From>::from', '<socket2::sockaddr::SockAddr as std::convert::From>::from')
def sockaddr_from(c, st, v):
    return [(st, mk('sockaddr', v, ty=c.dty))]


@m('socket2::socket::<impl std::convert::From for std::net::UdpSocket>::from')
def sock_from(c, st, v):
    return [(st, mk('udpsock', v, ty=c.dty))]


@m('alloc::io::error::<impl std::io::Error>::new', 'std::io::Error::new', 'std::io::Error::other', 'alloc::io::error::<impl std::io::Error>::other')
def ioerr_new(c, st, *a):
    return [(st, mk('ioerr', a[0] if len(a) > 1 else mk('zst', 'other'), ty=c.dty))]


@m('std::io::Error::kind')
def ioerr_kind(c, st, p):
    v = deref_load(c, st, p, pointee(c, 0))
    if v.op == 'ioerr' and v.a[0].op != 'zst':
        return [(st, v.a[0])]
    return [(st, mk('errkind', v, ty=c.dty))]


@m('core::io::error::<impl std::convert::From for std::io::Error>::from', '<std::io::Error as std::convert::From>::from')
def ioerr_from(c, st, v):
    if c.ip.p.ts(c.atys[0]) == 'std::io::ErrorKind':
        return [(st, mk('ioerr', v, ty=c.dty))]
    return NotImplemented


@m('<std::io::ErrorKind as std::cmp::PartialEq>::eq')
def errkind_eq(c, st, a, b):
    x, y = deref_load(c, st, a, pointee(c, 0)), deref_load(c, st, b, pointee(c, 1))
    return [(st, value_eq(c.ip, st, x, y))]


# ---- drops ------------------------------------------------------------------------------------
@m('std::ptr::drop_in_place', 'std::ptr::drop_glue')
def drop_in_place(c, st, p):
    return [(st, unit(c))]


# ---- futures ----------------------------------------------------------------------------------
@m('<F as std::future::IntoFuture>::into_future', 'std::future::IntoFuture::into_future')
def into_future(c, st, f):
    return [(st, f)]


@m('std::pin::Pin::new_unchecked', 'std::pin::Pin::new', 'std::boxed::Box::pin', 'std::boxed::Box::into_pin')
def pin_new(c, st, p):
    if 'boxed' in c.name():
        inner = mk('box', p, ty=None)
        return [(st, mk('agg', c.dty, 0, (inner,), ty=c.dty))]
    return [(st, mk('agg', c.dty, 0, (p,), ty=c.dty))]


@m('std::future::ResumeTy::new', 'std::future::get_context', 'std::task::poll_fn')
def get_context(c, st, *a):
    return [(st, mk('ctx', ty=c.dty))]


@m('futures_lite::future::or', 'futures_lite::FutureExt::or')
def fut_or(c, st, a, b):
    return [(st, mk('fut', 'or', a, b, c.atys[0], c.atys[1], ty=c.dty))]


@m('futures_lite::future::race', 'futures_lite::FutureExt::race')
def fut_race(c, st, a, b):
    return [(st, mk('fut', 'or', a, b, c.atys[0], c.atys[1], ty=c.dty))]


@m('async_io::Timer::after', 'async_io::Timer::at')
def timer_after(c, st, d):
    return [(st, mk('fut', 'timer' if c.name().endswith('after') else 'timer_at', d, ty=c.dty))]


@m('async_io::Async::recv_from', 'async_io::Async::peek_from')
def afut_recv(c, st, s, buf):
    return [(st, mk('fut', 'recv', deref_load(c, st, s, pointee(c, 0)), mk('slice', *c.ip.slice_of(st, buf)), ty=c.dty))]


@m('async_io::Async::send_to')
def afut_send(c, st, s, buf, addr):
    ct, off, n = sl_arg(c, st, buf)
    return [(st, mk('fut', 'send', deref_load(c, st, s, pointee(c, 0)), c.ip.subseq(st, ct, off, n), valof(c, st, addr, 2), ct, off, n, ty=c.dty))]


def poll_value(c, st, f, oty, tag=''):
    """run a future to completion: [(state, output)]"""
    ip = c.ip
    v = f
    where = None
    for _ in range(8):
        if v.op == 'agg' and v.ty is not None and ip.p.types[v.ty].get('path') in ('std::pin::Pin',):
            v = v.a[2][0]
        elif v.op == 'ref':
            where = v
            v = ip.load(st, v.a[0], v.a[1])
        elif v.op == 'box':
            v = v.a[0]
        else:
            break
    key = (c.site[0].uid, c.site[1], tag)
    if v.op == 'fut':
        k = v.a[0]
        if k == 'or':
            out = []
            _, a, b, ta, tb = v.a
            s1, s2 = st, st.copy()
            ip.emit(s1, 'race', ('first',), fut_desc(ip, s1, a), fut_desc(ip, s1, b))
            ip.emit(s2, 'race', ('second',), fut_desc(ip, s2, a), fut_desc(ip, s2, b))
            out += poll_value(c, s1, a, oty, tag + '1')
            out += poll_value(c, s2, b, oty, tag + '2')
            return out
        if k in ('timer', 'timer_at'):
            ip.emit(st, k, v.a[1], c.site[2])
            r = mk('ret', *key, 'instant', ty=oty)
            return [(st, r)]
        if k == 'recv':
            okty, errty = ip.p.fields(oty, 0)[0], ip.p.fields(oty, 1)[0]
            return do_recv(ip, c, st, v.a[1], v.a[2], okty, errty, key, c.site[2], lambda x: ok(oty, x), lambda e: err(oty, e))
        if k == 'send':
            s2 = st.copy()
            e = mk('ret', *key, 'senderr', ty=ip.p.fields(oty, 1)[0])
            n = mk('ret', *key, 'sent', ty=ip.p.fields(oty, 0)[0], rng=(0, ISIZE))
            for t, s in ((n, st), (e, s2)):
                t.syms = frozenset((t,))
                freshen(c, s, t)
            args = (v.a[1], v.a[2], v.a[3], v.a[4], v.a[5], v.a[6])
            ip.emit(st, 'send', *args, 'ok', n, c.site[2])
            ip.emit(s2, 'send', *args, 'err', e, c.site[2])
            return [(st, ok(oty, n)), (s2, err(oty, e))]
    if v.op == 'agg' and v.ty is not None and ip.p.tk(v.ty) == 'coroutine':
        b = ip.p.bodies[ip.p.types[v.ty]['i']]
        if b['body'] is not None:
            return run_coroutine(ip, st, c.fr, b, v, where, (c.site[0], (c.site[1], tag), c.site[2]))
    r = mk('ret', *key, 'await', ty=oty)
    r.syms = frozenset((r,))
    freshen(c, st, r)
    ip.emit(st, 'await', v, r, c.site[2])
    ip.unknown['await ' + (ip.p.ts(v.ty) if v.ty is not None else v.op)] += 1
    return [(st, r)]


def run_coroutine(ip, st, fr, b, v, where, site):
    """run the body of an async function (a state machine in its first state) until it is ready; every await is answered at once"""
    if where is None:
        uid = mk('corhome', fr.uid if fr else None, site[1] if site else None)
        root = ('L', uid, 0)
        ip._ldef[(uid, 0)] = v.ty
        st.mem[root] = v
        where = mk('ref', root, ())
    pin = b['locals'][1]
    out = []
    for s, r in ip.invoke(st, fr, b, [mk('agg', pin, 0, (where,), ty=pin), mk('ctx')], site):
        uid = mk('corframe', where)
        for k in [k for k in s.mem if k[0] == 'L' and (k[1] is uid or (k[1].op == 'corhome' and k[1] is where.a[0][1]))]:
            s.mem.pop(k)
        if r.op == 'agg' and r.a[1] == 0:
            out.append((s, r.a[2][0]))
        elif r.op != 'agg':
            raise Unsupported('result of a poll')
    return out


def fut_desc(ip, st, v):
    """what a future does, for events: a tuple"""
    for _ in range(6):
        if v.op == 'agg' and v.ty is not None and ip.p.types[v.ty].get('path') in ('std::pin::Pin',):
            v = v.a[2][0]
        elif v.op == 'ref':
            v = ip.load(st, v.a[0], v.a[1])
        elif v.op == 'box':
            v = v.a[0]
        else:
            break
    return v


def is_future_poll(f):
    return f.get('name') == 'poll' and (f.get('trait') or '').endswith('Future')


def poll(c, st, fut, cx=None):
    ip = c.ip
    oty = ip.p.fields(c.dty, 0)[0]
    return [(s, enumv(c.dty, 0, r)) for s, r in poll_value(c, st, fut, oty)]


@m('futures_lite::future::block_on', 'async_io::block_on', 'futures_lite::future::yield_now')
def block_on(c, st, f=None):
    if f is None:
        return NotImplemented
    return poll_value(c, st, f, c.dty)


M['@future'] = is_future_poll
M['@poll'] = poll
M['@view_store'] = view_store
M['@fresh'] = fresh


@m('std::iter::Iterator::skip')
def iter_skip(c, st, it, n):
    """skipping elements of a slice or vector is advancing its iterator; what maps them has no say in it"""
    ip = c.ip
    p = ip.p
    if not (p.tk(c.dty) == 'struct' and len(p.fields(c.dty)) == 2):
        return NotImplemented

    def inner(v):
        if v.op == 'iter' and v.a[0] in ('slice', 'own', 'map'):
            return v
        if v.op == 'agg' and v.ty is not None and p.types[v.ty].get('path', '').rsplit('::', 1)[-1] in ('Map', 'Copied', 'Cloned') and v.a[2]:
            return inner(v.a[2][0])

    def put(v, x):
        return x if v.op == 'iter' else mk('agg', v.a[0], v.a[1], (put(v.a[2][0], x),) + v.a[2][1:], ty=v.ty)
    i = inner(it)
    if i is None:
        return NotImplemented
    at = 2 if i.a[0] == 'own' else 3
    pos, end = i.a[at], i.a[at + 1]
    out = []
    for t, s in split(st, ge0(sub(sub(end, pos), n))):
        x = mk('iter', *i.a[:at], add(pos, n) if t else end, end, ty=i.ty)
        out.append((s, mk('agg', c.dty, 0, (put(it, x), I(0)), ty=c.dty)))
    return out


@m('std::array::<impl [T; N]>::map')
def array_map(c, st, a, f):
    """one call per item, in order"""
    ip = c.ip
    n = st.norm(ip.length(a))
    if n.op != 'int' or n.a[0] > 8:
        return NotImplemented
    work = [(st, ())]
    for i in range(n.a[0]):
        work = [(s2, got + (v,)) for s, got in work for s2, v in ip.call_value(s, c.fr, f, [ip.elem(s, a, I(i))], None, c.site)]
    return [(s, mk('seq', tuple(('o', v) for v in got), ty=c.dty)) for s, got in work]


@m('std::slice::<impl [T]>::concat', 'std::slice::<impl [T]>::join')
def slice_concat(c, st, a, *r):
    """the parts one after the other"""
    ip = c.ip
    if r or ip.p.types[c.dty].get('path') not in ('std::vec::Vec', 'std::string::String'):
        return NotImplemented
    ct, off, n = ip.slice_content(st, a)
    off, n = st.norm(off), st.norm(n)
    if off.op != 'int' or n.op != 'int' or n.a[0] > 8:
        return NotImplemented
    cty = ip.content_ty(c.dty)
    out = mk('seq', (), ty=cty)
    for i in range(n.a[0]):
        x = ip.elem(st, ct, I(off.a[0] + i))
        if x.op == 'ref' or x.op == 'slice':
            out = ip.concat(st, out, ip.subseq(st, *ip.slice_content(st, x)), ty=cty)
        else:
            y = ip.proj(st, x, ('v',)) if x.ty is not None and ip.p.types[x.ty].get('path') in ('std::vec::Vec', 'std::string::String') else None
            if y is None:
                t = ip.p.types[x.ty]['k'] if x.ty is not None else None
                if t != 'ref':
                    return NotImplemented
                y = ip.subseq(st, *ip.slice_content(st, x))
            out = ip.concat(st, out, y, ty=cty)
    return [(st, mk('vec', out, ty=c.dty))]


@m('std::net::Ipv6Addr::new')
def ipv6_new(c, st, *a):
    xs = [st.norm(x) for x in a]
    if len(xs) != 8 or any(x.op != 'int' for x in xs):
        return NotImplemented
    bs = [b for x in xs for b in (x.a[0] >> 8 & 255, x.a[0] & 255)]
    return [(st, mk('agg', c.dty, 0, (mk('seq', tuple(('o', I(x)) for x in bs), ty=c.ip.p.fields(c.dty)[0]),), ty=c.dty))]
