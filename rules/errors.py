"""Error codes: categories, messages, conversion and propagation (C17)."""
import errno as E
import re
from .common import *

THIS = ('p', 'this')
FAMILY = {'kIouring': ('Uring', 1000), 'kIo': ('Serialization', 2000), 'kApp': ('Application', 3000), 'kTls': ('Tls', 4000)}
POSIX = {
    'Network': 'ECONNABORTED ECONNRESET ECONNREFUSED EPIPE ENETDOWN ENETUNREACH ENETRESET EINPROGRESS EISCONN ENOTCONN ENOTSOCK '
               'EDESTADDRREQ EMSGSIZE EPROTONOSUPPORT EADDRINUSE EADDRNOTAVAIL ETIMEDOUT EHOSTUNREACH EHOSTDOWN EAGAIN',
    'File': 'ENOENT EACCES EEXIST EISDIR ENOTDIR ENAMETOOLONG EROFS EBADF EIO ENOSPC ESPIPE EFBIG ENOTEMPTY EXDEV',
    'SystemResource': 'ENOMEM EMFILE ENFILE EDEADLK ENOLCK ENOSYS ECANCELED EOWNERDEAD ENOTRECOVERABLE',
    'Device': 'ENODEV ENXIO EBUSY',
}


def fns(chk, q):
    return [f for f in chk.prog.functions.values() if qn(f['q']) == q and 'body' in f]


def one(chk, q):
    fs = fns(chk, q)
    if not fs:
        raise CheckError('errors: %s not found' % q)
    return fs[0]


class Exits(R):
    """collects the values a function can return"""
    label = 'error codes'
    heap_volatile = False
    max_states = 200
    max_head = 80
    numeric = True

    def __init__(self, calls=None):
        self.out = []
        self.calls = calls or {}

    def on_call(self, eng, st, ins, fn, obj, args):
        q = qn(fn['q'])
        if q == 'std::_V2::error_category::message' or q == 'std::error_category::message' or q.endswith('error_category::message'):
            return [(st, ('app', 'message', args[0]))]
        if q in ('strerror', 'strerror_r', 'std::strerror'):
            return [(st, ('app', 'message', args[0]))]
        if q in self.calls:
            return [(st, ('app', q) + tuple(args))]
        if q == 'std::basic_string::basic_string' and obj is not None and args:
            v = models.strip(args[0])
            if v[0] == '&':
                v = models.strip(eng.load(st, eng.loc_of(v)))
            if v[0] in ('s', 'app'):
                eng.store(st, eng.loc_of(obj), v)
                return [(st, v)]
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        v = models.strip(val) if val is not None else None
        if v is not None and v[0] == '&':
            v = models.strip(eng.load(st, eng.loc_of(v)))
        self.out.append((v, val, st, eng))


def outs(chk, f, args, facts=None, calls=None, setup=None, this=None):
    r = Exits(calls)
    kw = {}
    if facts:
        kw['facts'] = facts
    chk.run(r, f, 20000, args=args, **({'this': this} if this else {}), **kw)
    return r.out


def codes(chk):
    prog = chk.prog
    cat = one(chk, 'kio::CategoryFromErrno')
    msg = one(chk, 'kio::ErrorValueToString')
    names = one(chk, 'kio::CategoryToString')
    en = prog.enum('kio::ErrorCategory')
    vals = {c['n']: int(c['v']) for c in en['c']}
    back = {v: n for n, v in vals.items()}
    F, L = cat['file'], cat['line']

    def cats(arg, facts=None):
        got = set()
        for v, raw, st, eng in outs(chk, cat, [arg], facts):
            got.add(back.get(v[1], '?') if v is not None and v[0] == 'c' else None)
        return got

    # success exactly for 0
    g = cats(ZERO)
    chk.require('error codes', 'success is 0', F, L, g <= {'Success', None} and g, 'error value 0 is not Success')
    x = ('p', 'err')
    for key, facts, lim in (('negative', [(mk_le(add(x, ONE)), True)], 'negative values'),
                            ('positive', [(mk_le(sub(ONE, x)), True)], 'positive values')):
        g = cats(x, facts)
        chk.require('error codes', 'no %s success' % key, F, L, 'Success' not in g, 'a nonzero error value is classified as Success')
    for pre, (c, lo) in FAMILY.items():
        g = cats(x, [(mk_le(sub(C(lo), x)), True), (mk_le(sub(x, C(lo + 999))), True)])
        chk.require('error codes', 'range %d' % lo, F, L, g <= {c, None} and g, 'a value in %d..%d is classified as %s' % (lo, lo + 999, sorted(map(str, g - {c}))))
    for c, es in POSIX.items():
        for e in es.split():
            g = cats(C(getattr(E, e)))
            chk.require('error codes', 'errno ' + e, F, L, g <= {c, None} and g, '%s is classified as %s' % (e, sorted(map(str, g))))
    # the constants
    consts = {}
    for q, d in prog.globals.items():
        b = base_name(q)
        if q.startswith('kio::k') and d['file'].endswith('core/errors.h') and d.get('cv') is not None:
            consts[b] = (int(d['cv']), d)
    if len(consts) < 10:
        raise CheckError('errors: error constants not found')
    seen, texts = {}, {}
    for n, (v, d) in sorted(consts.items()):
        fam = [FAMILY[p] for p in sorted(FAMILY, key=len, reverse=True) if n.startswith(p)]
        if not fam:
            continue
        c, lo = fam[0]
        g = cats(C(v))
        chk.require('error codes', 'category of ' + n, d['file'], d['line'], g <= {c, None}, '%s (%d) is classified as %s' % (n, v, sorted(map(str, g))))
        chk.require('error codes', 'own value ' + n, d['file'], d['line'], v not in seen, '%s has the value of %s' % (n, seen.get(v)))
        seen[v] = n
        for t, raw, st, eng in outs(chk, msg, [C(v)]):
            s = t[1] if t is not None and t[0] == 's' else None
            if t is None or t[0] not in ('s', 'app'):
                continue
            ok = bool(s) and s != 'Unknown code' and texts.get(s, n) == n
            chk.require('error codes', 'message of ' + n, msg['file'], msg['line'], ok, 'the message of %s is %r' % (n, s if s is not None else 'that of a system error') +
                        (' like that of ' + texts[s] if s in texts and texts[s] != n else ''))
            texts[s] = n
    y = ('p', 'value')
    for t, raw, st, eng in outs(chk, msg, [y], [(mk_le(sub(ONE, y)), True), (mk_le(sub(y, C(999))), True)]):
        if t is None or t[0] not in ('s', 'app'):
            continue
        ok = t[0] == 'app' and t[1] == 'message' and eq(eng, st, t[2], y)
        chk.require('error codes', 'message of an errno', msg['file'], msg['line'], ok, 'the message of a system error is not the one of its errno')
    # category names
    seen = {}
    for n, v in vals.items():
        for t, raw, st, eng in outs(chk, names, [C(v)]):
            if t is None or t[0] != 's':
                continue
            chk.require('error codes', 'name of ' + n, names['file'], names['line'], bool(t[1]) and seen.get(t[1], n) == n, 'the category %s is printed like %s' % (n, seen.get(t[1])))
            seen[t[1]] = n
    # constructors and factories
    calls = {'kio::CategoryFromErrno': 1}

    def rec(v, raw, st, eng, f):
        if raw is None:
            return None
        if raw[0] == '&':
            return eng.load(st, eng.loc_of(raw) + (f,))
        if raw[0] == 'rec':
            d = dict(raw[2])
            return d.get((f,))
        return eng.project(raw, f)
    fe = one(chk, 'kio::Error::from_errno')
    p = ('p', fe['params'][0]['n'])
    n = 0
    for v, raw, st, eng in outs(chk, fe, [p], calls=calls):
        n += 1
        val, ct = rec(v, raw, st, eng, 'value'), rec(v, raw, st, eng, 'category')
        chk.require('error codes', 'from_errno value', fe['file'], fe['line'], val is not None and eq(eng, st, val, p), 'from_errno does not keep the errno')
        chk.require('error codes', 'from_errno category', fe['file'], fe['line'], ct is not None and (ct == ('app', 'kio::CategoryFromErrno', p) or ct[0] not in ('app', 'c')), 'from_errno does not classify the errno it is given')
    if not n:
        raise CheckError('errors: from_errno not analysed')
    cu = one(chk, 'kio::Error::custom')
    ps = [('p', x['n']) for x in cu['params']]
    for v, raw, st, eng in outs(chk, cu, ps):
        chk.require('error codes', 'custom', cu['file'], cu['line'], rec(v, raw, st, eng, 'category') == ps[0] and rec(v, raw, st, eng, 'value') == ps[1], 'custom does not keep category and value')
    iss = one(chk, 'kio::Error::is_success')
    for n, v in vals.items():
        r = Exits()
        chk.run(r, iss, 200, this=('p', 'this'), setup=lambda eng, st: eng.store(st, (('*', THIS), 'category'), C(v)))
        for t, raw, st, eng in r.out:
            g = eng.truth(st, mk_eq(t)) if t is not None else None
            chk.require('error codes', 'is_success ' + n, iss['file'], iss['line'], g == (n != 'Success') or g is None and "'value'" not in repr(t), 'is_success is %s for %s' % ('false' if n == 'Success' else 'true', n))


class Fmt(R):
    label = 'error text'
    heap_volatile = False

    def __init__(self):
        self.n = 0

    def on_call(self, eng, st, ins, fn, obj, args):
        q = qn(fn['q'])
        if q in ('kio::CategoryToString', 'kio::ErrorValueToString'):
            return [(st, ('app', q, args[0]))]
        if q == 'std::basic_format_string::basic_format_string':
            s = eng.sym(st, 'fs', ins, None)
            eng.info[s] = ('fslit', models.strip(args[0])[1] if args and models.strip(args[0])[0] == 's' else None)
            return [(st, s)]
        if q in ('std::format_to', 'std::format'):
            self.n += 1
            lit = [eng.info[a][1] for a in args if a in eng.info and eng.info[a][0] == 'fslit']
            vs = []
            for a in args:
                v = models.strip(a)
                if v[0] == '&':
                    v = models.strip(eng.load(st, eng.loc_of(v)))
                vs.append(v)
            err = ('*', ('p', 'err'))
            c = ('app', 'kio::CategoryToString', ('init', (err, 'category'), 0))
            m = ('app', 'kio::ErrorValueToString', ('init', (err, 'value'), 0))
            x = ('init', (err, 'value'), 0)
            for k, t in (('category', c), ('message', m), ('value', x)):
                self.need(eng, st, ins, t in vs, 'shows the ' + k, 'a formatted error does not show its ' + k)
            if lit and lit[0] is not None:
                holes = re.findall(r'\{[^{}]*\}', lit[0])
                self.need(eng, st, ins, len(holes) >= 3, 'shows all', 'a formatted error leaves out its category, message or value')
            return [(st, args[0])]
        return None


class Try(R):
    label = 'propagation'
    heap_volatile = False

    def __init__(self, par, void):
        self.par, self.void = ('p', par), void
        self.seen = set()

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        t = eng.truth(st, mk_eq(('has', self.par)))
        v = val
        if t is True:
            self.seen.add('error')
            e = v[1] if v is not None and v[0] == 'err' else None
            e = models.strip(e) if e is not None else None
            self.need(eng, st, ins, e == ('fld', self.par, '#err'), 'keeps the error', 'KIO_TRY does not hand on the error it was given')
        elif t is False:
            self.seen.add('value')
            if self.void:
                self.need(eng, st, ins, v is not None and v[0] != 'err', 'goes on', 'KIO_TRY fails although there is no error')
            else:
                x = v[1] if v is not None and v[0] == 'ok' else None
                if x is not None and x[0] == '&':
                    x = eng.load(st, eng.loc_of(x))
                self.need(eng, st, ins, x is not None and models.strip(x) == ('fld', self.par, '#val'), 'keeps the value', 'KIO_TRY does not give the value of the result')


def errors(chk):
    codes(chk)
    fs = [f for f in chk.prog.functions.values() if f['q'].startswith('std::formatter<kio::Error') and base_name(f['q']) == 'format' and 'body' in f]
    if not fs:
        raise CheckError('errors: formatter not found')
    for f in fs[:1]:
        r = Fmt()
        chk.run(r, f, 400, args=[('p', 'err'), ('p', 'ctx')])
        chk.require('error text', 'formats', f['file'], f['line'], r.n > 0, 'a formatted error is not written')
    for q, void in (('kio_units::try_value', False), ('kio_units::try_void', True)):
        f = one(chk, q)
        r = Try('input', void)
        chk.run(r, f, 400)
        m = one(chk, 'kio::Error::from_errno')
        for k in ('error', 'value'):
            chk.require('propagation', k + (' void' if void else ''), m['file'], m['line'], k in r.seen, 'KIO_TRY never ends with the ' + k)
