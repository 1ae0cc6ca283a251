"""Terms, linear forms and the constraint domain."""
from functools import lru_cache


def C(v):
    return ('c', int(v))


ZERO, ONE = C(0), C(1)


def is_c(t):
    return t[0] == 'c'


def lin_parts(t):
    """(const, {atom: coef}) of a numeric term"""
    if t[0] == 'c':
        return t[1], ()
    if t[0] == 'lin':
        return t[1], t[2]
    return 0, ((t, 1),)


def mk_lin(k, items):
    items = tuple(sorted(((a, c) for a, c in items if c), key=_key))
    if not items:
        return C(k)
    if k == 0 and len(items) == 1 and items[0][1] == 1:
        return items[0][0]
    return ('lin', k, items)


def _key(x):
    return repr(x)


def add(a, b, s=1):
    ka, ia = lin_parts(a)
    kb, ib = lin_parts(b)
    if not ib:
        d = ia
        return mk_lin(ka + s * kb, d) if ia else C(ka + s * kb)
    d = dict(ia)
    for t, c in ib:
        d[t] = d.get(t, 0) + s * c
    return mk_lin(ka + s * kb, d.items())


def sub(a, b):
    return add(a, b, -1)


def scale(a, n):
    k, i = lin_parts(a)
    return mk_lin(k * n, [(t, c * n) for t, c in i])


def neg(p):
    """negation of a predicate / boolean term"""
    if p[0] == 'c':
        return C(0 if p[1] else 1)
    if p[0] == 'le':      # lin <= 0  ->  lin >= 1 -> 1 - lin <= 0
        return mk_le(sub(ONE, p[1]))
    if p[0] == 'eq':
        return ('ne', p[1])
    if p[0] == 'ne':
        return ('eq', p[1])
    if p[0] == 'not':
        return p[1]
    if p[0] in ('fcmp', 'bool'):
        return ('not', p)
    return mk_eq(p)


def mk_le(l):
    if l[0] == 'c':
        return C(1 if l[1] <= 0 else 0)
    return ('le', l)


def mk_eq(l):
    if l[0] == 'c':
        return C(1 if l[1] == 0 else 0)
    # canonical sign
    k, items = lin_parts(l)
    if items[0][1] < 0:
        l = scale(l, -1)
    return ('eq', l)


def as_pred(t):
    """the predicate 't is true'"""
    if t[0] in ('le', 'eq', 'ne', 'not', 'fcmp', 'bool', 'c'):
        return t
    return neg(mk_eq(t))


def atoms(t, out=None):
    if out is None:
        out = set()
    if not isinstance(t, tuple):
        return out
    if t[0] == 'c' or t[0] == 's':
        return out
    if t[0] == 'lin':
        for a, _ in t[2]:
            atoms(a, out)
        return out
    if t[0] in ('le', 'eq', 'ne', 'not'):
        return atoms(t[1], out)
    out.add(t)
    return out


def subterms(t):
    st = [t]
    while st:
        x = st.pop()
        if isinstance(x, tuple):
            yield x
            st.extend(x)


@lru_cache(maxsize=400000)
def mentions(t, s):
    if t == s:
        return True
    if not isinstance(t, tuple):
        return False
    for x in t:
        if isinstance(x, tuple) and mentions(x, s):
            return True
    return False


def subst(t, m):
    if t in m:
        return m[t]
    if not isinstance(t, tuple) or not t:
        return t
    if t[0] in ('c', 's'):
        return t
    if t[0] == 'lin':
        r = C(t[1])
        ch = False
        for a, c in t[2]:
            n = subst(a, m)
            if n is not a:
                ch = True
            r = add(r, scale(n, c))
        return r if ch else t
    if t[0] == 'le':
        n = subst(t[1], m)
        return t if n is t[1] else mk_le(n)
    if t[0] == 'eq':
        n = subst(t[1], m)
        return t if n is t[1] else mk_eq(n)
    if t[0] == 'ne':
        n = subst(t[1], m)
        return t if n is t[1] else neg(mk_eq(n))
    r = tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t if r == t else r


# ------------------------------------------------------------------ constraints
def infeasible(cs, limit=400):
    """cs: list of (const, {atom: coef}) meaning const + sum <= 0; rational Fourier-Motzkin"""
    work = []
    for k, d in cs:
        d = {a: c for a, c in d.items() if c}
        if not d:
            if k > 0:
                return True
            continue
        work.append((k, d))
    while work:
        cnt = {}
        for k, d in work:
            for a, c in d.items():
                p, n = cnt.get(a, (0, 0))
                cnt[a] = (p + (c > 0), n + (c < 0))
        a = min(cnt, key=lambda x: cnt[x][0] * cnt[x][1])
        pos = [(k, d) for k, d in work if d.get(a, 0) > 0]
        ngs = [(k, d) for k, d in work if d.get(a, 0) < 0]
        rest = [(k, d) for k, d in work if not d.get(a, 0)]
        seen = {(k, frozenset(d.items())) for k, d in rest}
        for k1, d1 in pos:
            for k2, d2 in ngs:
                m1, m2 = -d2[a], d1[a]
                nd = {}
                for t, c in d1.items():
                    nd[t] = nd.get(t, 0) + c * m1
                for t, c in d2.items():
                    nd[t] = nd.get(t, 0) + c * m2
                nd = {t: c for t, c in nd.items() if c}
                k = k1 * m1 + k2 * m2
                if not nd:
                    if k > 0:
                        return True
                    continue
                key = (k, frozenset(nd.items()))
                if key not in seen:
                    seen.add(key)
                    rest.append((k, nd))
        work = rest
        if len(work) > limit:
            return False
    return False
