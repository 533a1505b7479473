"""C33: encoding followed by decoding, by composition"""
from base import *
from util import *
import wire, decoding, encoding
from decoding import Rep, next_outcomes, each_next, names_in, is_some_err, on_value, run, be
from encoding import LAYOUT, RECORDS


class Part:
    """a part of another property: only the rules that bear on untruncated messages made of plain (uncompressed) names"""
    plain = True

    def __init__(self, c, prefix, skip=(), only=None):
        self.c, self.prefix, self.skip, self.only = c, prefix, skip, only

    def ob(self, ok, rule, *a):
        if rule in self.skip or self.only is not None and rule not in self.only:
            return ok
        return self.c.ob(ok, '%s: %s' % (self.prefix, rule), *a)

    def __getattr__(self, k):
        return getattr(self.c, k)


def c33(c):
    """By induction over the entries of a message. Writing: every entry method appends exactly the entry's fields in the RFC layout and counts it (C05, C06, C07 and
    C11's rules), and finish() returns the header followed by them. Reading: the decoder starts behind the header with the counts written there, each step reads
    one entry of the same layout, succeeds if the entry is complete, and leaves the cursor where the next entry starts (C06, C07, C10, C11, C12 and C27's rules, the last
    for names without pointers, which is what the encoder writes). Only the rules that bear on untruncated messages are used."""
    p = c.prog()
    encoding.c05(Part(c, 'writing', skip=('a buffer shorter than a header is refused', 'a buffer with room for a header is accepted')))
    encoding.c06(Part(c, 'counting', skip=('a section ends early only after an error', 'an entry is only produced while no error has been reported', 'moving on stops at a malformed entry', 'moving on succeeds only if every entry skipped was well-formed', 'a section is left only when all its entries were read', 'an entry that did not fit is not counted')))
    encoding.c07(Part(c, 'layout'))
    decoding.c11(Part(c, 'reading'))
    decoding.c10(Part(c, 'reading', only=('the next entry starts at the declared end of the data', 'the next entry is read from the same message', 'the data of a record is the declared number of bytes behind its header', 'decoding record data does not move the decoder')))
    decoding.c27(Part(c, 'names'))
    rep = c.group('MessageDecoder', Rep, c, p)
    if rep is not None:
        each_next(c, p, rep, accepts)


def accepts(c, p, rep, sec, how):
    """a complete entry is decoded without error"""
    ip, b, root, d0, outs = next_outcomes(c, rep, p, sec, how)
    st0 = State()
    where = '%s (%s)' % (loc(b), sec)
    errs = 0
    for s, v in outs:
        if not is_some_err(v):
            continue
        errs += 1
        ct, off, n = ip.slice_content(s, rep.get(ip, st0, d0, rep.buf))
        evs = names_in(events(s))
        cs = Soft(c, ip, s)
        if any(e[2] is None for e in evs):
            continue        # the name is not well-formed (C27)
        if not evs:
            # nothing was read: is there an entry at all?
            cur = rep.get(ip, st0, d0, rep.cursor)
            q = s.copy()
            ok = not q.assume(ge0(sub(n, addc(cur, 15))), True)
            cs.ob(ok or (None if unread(ip, s) else False), 'a complete entry is decoded', where, 'fails without reading it')
            continue
        end = evs[0][3]
        k = 4 if sec == 'Question' else 10
        q = s.copy()
        ok = not q.assume(ge0(sub(n, addc(end, k))), True)
        if not ok and k == 10:
            ln = be(ip, q, ct, add(off, addc(end, 8)), 2)
            ok = not q.assume(ge0(sub(n, add(addc(end, 10), ln))), True)
        if ok:
            c.ob(True, 'a complete entry is decoded', where)
        else:
            cs.ob(False, 'a complete entry is decoded', where, 'fails with %s although the entry is complete' % show(v)[:60])
    if not errs:
        c.ob(None, 'a complete entry is decoded', where, 'no error found')


def unread(ip, s):
    """does the state say something about a message byte or other condition that may be a reason?"""
    return any(t.op in ('elem', 'phi', 'bits') for t in dep_terms(s))


PROPS = {'C33': c33}
