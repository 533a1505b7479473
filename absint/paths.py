"""Normal form of callee paths: generic arguments and lifetimes removed, qualified-self and impl headers kept."""
import re
_memo = {}


def norm(p):
    r = _memo.get(p)
    if r is None:
        r = _memo[p] = _norm(p)
    return r


def _norm(p):
    p = re.sub(r"'[a-z_][A-Za-z0-9_]*\s?", '', p)
    out = []
    i, n = 0, len(p)
    while i < n:
        c = p[i]
        if c == '<':
            d, j = 0, i
            while j < n:
                if p[j] == '<':
                    d += 1
                elif p[j] == '>' and p[j - 1] != '-':
                    d -= 1
                    if d == 0:
                        break
                j += 1
            inner = p[i + 1:j]
            prev = ''.join(out)
            m = split_as(inner)
            if inner.startswith('impl ') :
                out.append('<' + 'impl ' + ' for '.join(_norm(x) for x in split_for(inner[5:])) + '>')
            elif m and (not prev or not re.search(r'[A-Za-z0-9_\]]$', prev)):
                out.append('<' + _norm(m[0]) + ' as ' + _norm(m[1]) + '>')
            elif not prev or not re.search(r'[A-Za-z0-9_:\]]$', prev):
                out.append('<' + _norm(inner) + '>')
            elif prev.endswith('::'):
                s = prev[:-2]
                out = [s]
            i = j + 1
        else:
            out.append(c)
            i += 1
    return ''.join(out)


def split_top(s, sep):
    d = 0
    for k in range(len(s)):
        if s[k] in '<([':
            d += 1
        elif s[k] in ')]' or (s[k] == '>' and s[k - 1] != '-'):
            d -= 1
        elif d == 0 and s.startswith(sep, k):
            return s[:k], s[k + len(sep):]
    return None


def split_as(s):
    return split_top(s, ' as ')


def split_for(s):
    r = split_top(s, ' for ')
    return list(r) if r else [s]
