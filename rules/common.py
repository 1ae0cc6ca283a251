"""Helpers shared by the rules."""
from sa import ir, models
from sa.check import R
from sa.engine import is_unsigned, numtype, BITS
from sa.facts import CheckError, rel
from sa.ir import qn, base_name
from sa.terms import *

U64 = 2 ** 64 - 1
PTRMAX = 2 ** 56          # objects and address ranges are smaller than this


def eq(eng, st, a, b):
    if a == b:
        return True
    a, b = eng.ptr(a), eng.ptr(b)
    if not (eng.isnum(a) or a[0] == 'lin') or not (eng.isnum(b) or b[0] == 'lin'):
        return False
    return eng.truth(st, mk_eq(sub(a, b))) is True


def le(eng, st, a, b):
    a, b = eng.ptr(a), eng.ptr(b)
    if not eng.numok(a) or not eng.numok(b):
        return False
    return eng.entails_le(st, sub(a, b))


def lt(eng, st, a, b):
    return le(eng, st, add(a, ONE), b)


def ge0(eng, st, a):
    return eng.entails_le(st, scale(a, -1))


COPY = {'memcpy', 'std::memcpy', 'memmove', 'std::memmove', '__builtin_memcpy', '__builtin_memmove', 'std::copy', 'std::copy_n',
        'std::ranges::copy', 'std::ranges::copy_n', 'std::copy_backward', 'std::char_traits::copy', 'std::char_traits::move'}


def copyop(eng, st, fn, args):
    """(dst, src, n, how) when this call copies a block of memory"""
    q = qn(fn['q'])
    if q not in COPY and not (q.endswith('__copy_fn::operator()') or q.endswith('__copy_n_fn::operator()')):
        return None
    a = [models.val(eng, st, fn, args, i) for i in range(len(args))]
    if 'mem' in q or 'char_traits' in q:
        return a[0], a[1], a[2], ('move' if 'move' in q else 'cpy')
    if q.endswith('copy_n') or q.endswith('__copy_n_fn::operator()'):
        return a[2], a[0], a[1], 'fwd'
    if q == 'std::copy_backward':
        n = sub(eng.ptr(a[1]), eng.ptr(a[0]))
        return sub(eng.ptr(a[2]), n), a[0], n, 'bwd'
    if len(a) == 3:
        return a[2], a[0], sub(eng.ptr(a[1]), eng.ptr(a[0])), 'fwd'
    if len(a) == 2:
        return a[1], eng.project(a[0], '#data'), models.size_val(eng, a[0]), 'fwd'
    return None


class Num(R):
    """numeric rules: machine arithmetic on unsigned values is kept exact; a result that may wrap is unknown"""
    numeric = True
    strict = True

    def on_bin(self, eng, st, ins, op, a, b):
        t = ins.x.get('t')
        if op not in ('+', '-', '*') or not is_unsigned(t):
            return None
        if not eng.numok(a) or not eng.numok(b):
            return None
        r = eng.binop(st, ins, op, a, b, t, ins.x.get('xt'))
        if r[0] == 'app':
            return None
        hi = (1 << BITS[numtype(t)]) - 1
        if r[0] == 'c':
            return C(r[1] & hi)
        ok = eng.entails_le(st, scale(r, -1)) if op == '-' else True
        if op in ('+', '*'):
            ok = eng.entails_le(st, sub(r, C(hi))) and eng.entails_le(st, scale(r, -1))
        if ok:
            return None
        w = ('app', 'wrap', ('s', op), a, b)
        eng.unsigned.add(w)
        return w


def public_methods(prog, q):
    c = prog.cls(q)
    out = []
    for m in c['methods']:
        if m.get('acc', 'public') != 'public':
            continue
        out.append(m)
    return out


def this_fields(v):
    """field path of an initial-value term"""
    return v[1][1:] if v[0] == 'init' else None
