"""std::chrono durations as numbers of ticks (shared by the rules that judge timers)."""
import re
from fractions import Fraction
from .common import *


def unit(t):
    """seconds per tick of a duration type, or None"""
    m = re.search(r'duration<[^<>]*?(?:,\s*std::ratio<(\d+)(?:,\s*(\d+))?>)?\s*>', t or '')
    if not m:
        named = {'nanoseconds': 10 ** 9, 'microseconds': 10 ** 6, 'milliseconds': 1000, 'seconds': 1}
        for k, v in named.items():
            if re.search(r'\b%s\b' % k, t or ''):
                return Fraction(1, v)
        return None
    return Fraction(int(m.group(1) or 1), int(m.group(2) or 1))


def ticks(eng, st, a):
    v = models.strip(a)
    if v[0] == '&':
        v = models.strip(eng.load(st, eng.loc_of(v), 'long'))
    return v


def convert(x, fr, to):
    k = fr / to
    if k.denominator == 1:
        return scale(x, k.numerator) if k != 1 else x
    if k.numerator == 1:
        return ('app', '/', x, C(k.denominator))
    return None


def chrono_call(eng, st, ins, fn, obj, args):
    """result list of a std::chrono call, or None"""
    q, b = qn(fn['q']), base_name(fn['q'])
    if not q.startswith('std::chrono::'):
        return None
    pt = fn.get('pt') or []
    if b == 'count' and obj is not None:
        return [(st, ticks(eng, st, obj))]
    if q == 'std::chrono::duration::duration' and obj is not None and args:
        v = ticks(eng, st, args[0])
        fu = unit(pt[0]) if pt else None
        if fu is not None:
            v = convert(v, fu, unit(fn.get('cls') or fn['q']) or fu)
        if v is None:
            return None
        eng.store(st, eng.loc_of(obj), v)
        return [(st, v)]
    if q in ('std::chrono::duration_cast', 'std::chrono::floor') and args:
        fu, tu = unit(pt[0]), unit(fn.get('rt'))
        if fu and tu:
            v = convert(ticks(eng, st, args[0]), fu, tu)
            if v is not None:
                return [(st, v)]
    if b in ('operator%', 'operator-', 'operator+') and len(args) == 2:
        fu, gu, ru = unit(pt[0]), unit(pt[1]), unit(fn.get('rt'))
        if fu and gu and ru:
            x, y = convert(ticks(eng, st, args[0]), fu, ru), convert(ticks(eng, st, args[1]), gu, ru)
            if x is not None and y is not None:
                if b == 'operator%':
                    return [(st, ('app', '%', x, y))]
                return [(st, add(x, y, 1 if b == 'operator+' else -1))]
    return None


def split_of(sec, nsec):
    """the number of nanoseconds a (tv_sec, tv_nsec) pair stands for"""
    G = C(10 ** 9)
    if sec[:2] == ('app', '/') and sec[3] == G:
        d = sec[2]
        if nsec == ('app', '%', d, G) or nsec == sub(d, scale(sec, 10 ** 9)):
            return d
    return None
