"""Addresses: resolving, binding, connecting, telling the peer (C28)."""
from .common import *
from .net import Sys, Flow, fns, touches, N, T, ROOT, THIS, W, plain

FAM = ('ss_family', 'sin_family', 'sin6_family', 'sa_family')
PORT = ('sin_port', 'sin6_port')
BIN = {2: 'sin_addr', 10: 'sin6_addr'}
SIZE = {2: 16, 10: 28}
ROOM = 128


class Addr(Flow):
    """socket addresses as they are filled in and used"""
    label = 'address'
    watch = ('address', 'memory', 'list', 'use', 'told')

    inlined = (N + 'listen_on_sock',)

    def __init__(self, prog, f, resolver=False, split=()):
        super().__init__(prog, f, split)
        self.resolver = resolver

    # ---- the same bytes under several names
    def on_store(self, eng, st, ins, loc, v):
        for group in (FAM, PORT):
            if loc and loc[-1] in group:
                for g in group:
                    if g != loc[-1]:
                        eng.store(st, loc[:-1] + (g,), v)
        return super().on_store(eng, st, ins, loc, v)

    def field(self, eng, st, base, names):
        return plain(models.strip(eng.load(st, base + (names,), 'unsigned short')))

    def fill(self, eng, st, base, fam, port, a4, a6):
        for g in FAM:
            eng.store(st, base + (g,), fam)
        for g in PORT:
            eng.store(st, base + (g,), port)
        eng.store(st, base + ('sin_addr',), a4)
        eng.store(st, base + ('sin6_addr',), a6)

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        vals = lambda: [models.val(eng, st, fn, args, i) for i in range(len(args))]
        if q in ('htons', 'ntohs', '__bswap_16', '__builtin_bswap16'):
            v = plain(models.strip(vals()[0]))
            return [(st, v[2] if v[:2] == ('app', 'net16') else ('app', 'net16', v))]
        if q == 'inet_pton':
            a = vals()
            self.sites.add((st.top.fn.f['q'], ins.line))
            self.text(eng, st, ins, a[1])
            self.need(eng, st, ins, a[0] in (C(2), C(10)) and a[2][0] == '&' and a[2][-1] in (BIN[a[0][1]], 'addr', 's_addr'), 'address', 'an address is parsed as one family and stored as another')
            s = st.copy()
            if a[0][0] == 'c' and a[2][0] == '&':
                eng.store(st, a[2][1:], ('app', 'bin', a[0], ('s', 'text')))
                other = [x for k, x in BIN.items() if k != a[0][1]]
                eng.store(st, a[2][1:-1] + (other[0],), ('app', 'overwritten'))
            return [(st, ONE), (s, ZERO)]
        if q == 'inet_ntop':
            a = vals()
            ok = a[0][0] == 'c' and a[0][1] in BIN and a[1][0] == '&' and a[1][-1] == BIN.get(a[0][1])
            self.need(eng, st, ins, ok, 'address', 'an address is told as one family and read as another')
            need = 16 if a[0] == C(2) else 46
            self.need(eng, st, ins, eq_ge(eng, st, a[3], need), 'memory', 'the text of an address does not fit')
            if a[1][0] == '&' and a[2][0] == '&':
                eng.store(st, a[2][1:] + ('#text',), ('app', 'text', a[0], plain(models.strip(eng.load(st, a[1][1:])))))
            return [(st, a[2])]
        if q == 'getaddrinfo':
            a = args
            self.sites.add((st.top.fn.f['q'], ins.line))
            self.text(eng, st, ins, vals()[0])
            service = plain(models.strip(vals()[1]))
            h = eng.loc_of(a[2]) if a[2] not in (ZERO,) and a[2][0] == '&' else None
            if h is not None:
                self.need(eng, st, ins, eng.load(st, h + ('ai_socktype',), 'int') in (ZERO, ONE), 'address', 'addresses of another kind than streams are asked for')
            s = st.copy()
            r = eng.sym(s, 'getaddrinfo', ins, 'int')
            s.facts = {**s.facts, mk_eq(r): False}
            eng.store(s, eng.loc_of(a[3]), ('app', 'no list'))
            p = ('app', 'addrinfo', C(st.top.ctx), C(ins.idx))
            eng.store(st, eng.loc_of(a[3]), p)
            st.facts = {**st.facts, mk_eq(p): False}
            port = ('app', 'net16', ('p', 'port')) if service != ZERO else ZERO
            more = ('app', 'addrinfo', p)       # stands for all further answers
            for x in (p, more):
                fam, ln, at = ('app', 'dns family', x), ('app', 'dns length', x), ('app', 'dns address', x)
                st.facts = {**st.facts, mk_eq(at): False, mk_le(sub(ONE, ln)): True, mk_le(sub(ln, C(ROOM))): True}
                i = ('*', x)
                eng.store(st, (i, 'ai_family'), fam)
                eng.store(st, (i, 'ai_addrlen'), ln)
                eng.store(st, (i, 'ai_addr'), at)
                eng.store(st, (i, 'ai_next'), more)
                self.fill(eng, st, (('*', at),), fam, port, ('app', 'bin', C(2), ('s', 'dns')), ('app', 'bin', C(10), ('s', 'dns')))
            self.put(st, list=p)
            return [(st, ZERO), (s, r)]
        if q == 'freeaddrinfo':
            p = plain(models.strip(vals()[0]))
            self.need(eng, st, ins, self.get(st, 'list') == p, 'list', 'a list of addresses is freed twice, or was never made')
            self.put(st, list=None, freed=p)
            return [(st, ('unk', 'void', 0))]
        if q in ('memcpy', 'std::memcpy', '__builtin_memcpy', 'std::memmove', 'memmove'):
            a = vals()
            if a[0][0] == '&' and a[0][-1] == 'addr':
                self.alive(eng, st, ins, a[1])
                n = plain(models.strip(a[2]))
                self.need(eng, st, ins, eng.numok(n) and eng.entails_le(st, sub(n, C(ROOM))), 'memory', 'an address is copied to where it need not fit')
                src = eng.loc_of(a[1]) if a[1][0] == '&' else (('*', a[1]),)
                for fset in ((g,) for g in FAM[:1] + PORT[:1] + ('sin_addr', 'sin6_addr')):
                    g = fset[0]
                    v = plain(models.strip(eng.load(st, src + (g,))))
                    for x in (FAM if g in FAM else PORT if g in PORT else (g,)):
                        eng.store(st, a[0][1:] + (x,), v)
                self.put(st, copied=n)
                return [(st, a[0])]
        if b in ('operator=', 'basic_string', 'assign') and 'basic_string' in q and args and args[0][0] == '&' and obj is not None and obj[0] == '&':
            t = st.mem.get(args[0][1:] + ('#text',))
            if t is not None:
                if b == 'basic_string':
                    return [(st, t)]
                eng.store(st, obj[1:], t)
                return [(st, obj)]
        if q in ('bind', 'connect') and len(args) == 3:
            a = vals()
            self.whole(eng, st, ins, a[0], a[1], plain(models.strip(a[2])))
        r = super().on_call(eng, st, ins, fn, obj, args)
        if q == 'socket' and r is not None:
            fd = r[0][1]
            self.put(r[0][0], fam=tuple([x for x in self.get(r[0][0], 'fam') or () if x[0] != fd] + [(fd, plain(models.strip(vals()[0])))]))
        return r

    def on_load(self, eng, st, ins, loc, v):
        p = self.get(st, 'freed')
        if p is not None and loc and loc[0] == ('*', p):
            self.need(eng, st, ins, False, 'list', 'an address is read after its list was freed')
        return super().on_load(eng, st, ins, loc, v)

    def text(self, eng, st, ins, v):
        ok = v[0] == 's' or v[0] == 'fld' and v[-1] == '#data' and v[1][:2] != ('p', 'host') and v[1][0] != 'p'
        self.need(eng, st, ins, ok, 'memory', 'text that need not end with a zero is read as if it did')

    def alive(self, eng, st, ins, v):
        p = self.get(st, 'freed')
        self.need(eng, st, ins, p is None or not mentions(v, p), 'list', 'an address is read after its list was freed')

    # ---- uses
    def base(self, a):
        return a[1:-1] if a[0] == '&' and a[-1] == 'addr' else None

    def whole(self, eng, st, ins, fd, a, n):
        """fd is bound or connected to the address at a, of n bytes"""
        self.sites.add((st.top.fn.f['q'], ins.line))
        x = self.base(a)
        self.need(eng, st, ins, x is not None, 'use', 'the address used is not one that was resolved')
        if x is None:
            return
        want = plain(models.strip(eng.load(st, x + ('addrlen',), 'unsigned int')))
        self.need(eng, st, ins, n == want, 'use', 'not the whole address is used')
        fams = dict(self.get(st, 'fam') or ())
        fd = plain(models.strip(fd))
        if fd in fams:
            fam = plain(models.strip(eng.load(st, x + ('family',), 'int')))
            self.need(eng, st, ins, fams[fd] == fam, 'use', 'the socket is of another family than the address it is used with')

    def waited(self, eng, st, ins, b, a, v):
        if b == 'async_connect' and len(a) == 3:
            self.whole(eng, st, ins, a[0], a[1], plain(a[2]))
        if b == 'async_accept':
            self.room(eng, st, ins, a)

    def room(self, eng, st, ins, a):
        if len(a) != 3 or a[1] == ZERO:
            return
        n = eng.load(st, eng.loc_of(a[2]), 'unsigned int') if a[2][0] == '&' else a[2]
        self.sites.add((st.top.fn.f['q'], ins.line))
        self.need(eng, st, ins, plain(models.strip(n)) == C(ROOM), 'told', 'the kernel is not told the room there is for the address of the peer')
        x = self.base(a[1])
        if x is not None:
            self.need(eng, st, ins, a[2] == ('&',) + x + ('addrlen',), 'told', 'the length of the address of the peer is stored elsewhere')
            fam = ('app', 'peer family', C(ins.idx))
            self.fill(eng, st, x + ('addr',), fam, ('app', 'net16', ('app', 'peer port', C(ins.idx))), ('app', 'bin', C(2), ('s', 'peer')), ('app', 'bin', C(10), ('s', 'peer')))
            n = ('app', 'peer length', C(ins.idx))
            st.facts = {**st.facts, mk_le(sub(ONE, n)): True}
            eng.store(st, x + ('addrlen',), n)

    # ---- the end
    def on_exit(self, eng, st, ins, how, val):
        if self.resolver:
            self.need(eng, st, ins, self.get(st, 'list') is None, 'list', 'the list of addresses is not freed')
        v = models.strip(val) if val is not None else None
        if self.resolver and v is not None and v[0] == 'ok':
            x = v[1]
            if x[0] == '&':
                x = eng.load(st, x[1:])
            P = lambda *path: self.proj(eng, x, path)
            self.complete(eng, st, ins, P, resolved=True)
        super().on_exit(eng, st, ins, how, val)

    def proj(self, eng, x, path):
        for p in path:
            x = eng.project(x, p)
        return plain(models.strip(x))

    def complete(self, eng, st, ins, P, resolved):
        need = lambda ok, m: self.need(eng, st, ins, ok, 'address', m)
        fam = P('addr', 'ss_family')
        need(P('family') == fam, 'the family told is not the family of the address')
        for k, n in SIZE.items():
            is_k = eng.truth(st, mk_eq(sub(fam, C(k)))) if eng.numok(fam) else None
            if is_k is False:
                continue
            if is_k is None:
                continue
            L = P('addrlen')
            need(L == C(n) or L[:2] == ('app', 'dns length') and fam[:2] == ('app', 'dns family') and L[2] == fam[2], 'the length of the address is not that of its family')
            b = P('addr', BIN[k])
            need(b[:2] == ('app', 'bin') and b[2] == C(k), 'the address is not the one asked for')
            need(P('addr', PORT[0]) == ('app', 'net16', ('p', 'port')), 'the port of the address is not the one asked for (in network order)')
            port = P('port')
            need(port == ('p', 'port'), 'the port told is not the one asked for')
            need(P('ip') == ('app', 'text', C(k), b), 'the ip told is not that of the address')
            self.shapes.add(k)


def eq_ge(eng, st, v, n):
    v = plain(models.strip(v))
    return eng.numok(v) and eng.entails_le(st, sub(C(n), v))


class Told(Addr):
    """populate_from_storage: what an address is told to be"""

    def __init__(self, prog, f):
        super().__init__(prog, f)
        self.told = set()

    def on_exit(self, eng, st, ins, how, val):
        L = lambda *p: plain(models.strip(eng.load(st, (ROOT,) + p)))
        fam0 = ('init', (ROOT, 'addr', 'ss_family'), 0)
        got = eng.truth(st, as_pred(val)) if val is not None and val[0] != 'c' else bool(val[1])
        need = lambda ok, m: self.need(eng, st, ins, ok, 'told', m)
        room = ('init', (ROOT, 'addrlen'), 0)
        if eng.truth(st, mk_eq(room)) is True:
            need(got is False, 'an address of no length is told')
            return
        for k in BIN:
            if eng.truth(st, mk_eq(sub(fam0, C(k)))) is True:
                need(got is True, 'an address is not told although its family is known')
                need(L('family') in (fam0, C(k)), 'the family told is not the family of the address')
                b = plain(models.strip(('init', (ROOT, 'addr', BIN[k]), 0)))
                ip = L('ip')
                need(ip[:3] == ('app', 'text', C(k)), 'the ip told is not that of the address')
                port = L('port')
                pn = [('app', 'net16', ('init', (ROOT, 'addr', g), 0)) for g in PORT]
                need(port in pn, 'the port told is not the port of the address in the order of the machine')
                self.told.add(k)
                return
        need(got is False, 'an address of an unknown family is told')


def check_resolve(chk):
    n = 0
    todo = [f for f in fns(chk, N + 'resolve_address') if 'SocketAddress' in (f.get('rt') or '')]
    # and the others that make an address of a host and a port
    todo += [f for f in chk.prog.functions.values() if 'body' in f and not f.get('coro') and not f.get('lambda') and f['q'].startswith(N) and f not in todo
             and 'SocketAddress' in (f.get('rt') or '') and [x['t'].replace('const ', '') for x in f['params']][1:] == ['unsigned short'] and 'string_view' in f['params'][0]['t']]
    for f in todo:
        r = Addr(chk.prog, f, resolver=True)
        r.shapes = set()
        chk.run(r, f, 20000)
        chk.require('address', 'families|%s' % f['q'], f['file'], f['line'], r.shapes == set(BIN), 'addresses of some family are never resolved')
        n += 1
    if not n:
        raise CheckError('anchor vanished: resolve_address')
    for f in fns(chk, 'kio::net::SocketAddress::populate_from_storage'):
        r = Told(chk.prog, f)
        chk.run(r, f, 4000, this=('&', ROOT), facts={mk_le(scale(('init', (ROOT, 'addrlen'), 0), -1)): True})
        chk.require('address', 'families|%s' % f['q'], f['file'], f['line'], r.told == set(BIN), 'addresses of some family are never told')


class Peer(Addr):
    """the address of an accepted peer"""

    def on_exit(self, eng, st, ins, how, val):
        v = models.strip(val) if val is not None else None
        if v is not None and v[0] == 'ok' and v[1][0] == '&':
            at = v[1][1:] + (self.peer,)
            L = lambda *p: plain(models.strip(eng.load(st, at + p)))
            fam = L('addr', 'ss_family')
            self.need(eng, st, ins, fam[:2] == ('app', 'peer family'), 'told', 'the stream does not have the address of its peer')
            for k in BIN:
                if eng.numok(fam) and eng.truth(st, mk_eq(sub(fam, C(k)))) is True:
                    self.need(eng, st, ins, L('port')[:2] == ('app', 'peer port') and L('ip')[:3] == ('app', 'text', C(k)), 'told', 'the ip and port of the peer are not told')
                    self.shapes.add(k)


def check_uses(chk):
    prog = chk.prog
    n = 0
    for f in sorted(prog.functions.values(), key=lambda f: f['q']):
        q = qn(f['q'])
        if 'body' not in f or f.get('lambda') or q.split('::')[0] != 'kio' or q == N + 'resolve_address':
            continue
        hit = False
        for ref, l, nn in ir.calls_of(f):
            rq = qn(ref['q'])
            if rq in ('bind', 'connect', N + 'listen_on_sock', W + 'async_connect', W + 'async_accept', N + 'create_tcp_server_socket'):
                hit = True
        if not hit or q.startswith(W) and base_name(q) != 'async_accept':
            continue
        if q == W + 'async_accept' and f.get('coro'):
            continue
        r = Overload(prog, f) if q == W + 'async_accept' else Peer(prog, f) if q == T + 'TlsListener::accept' else Addr(prog, f)
        r.shapes = set()
        if isinstance(r, Peer):
            c = prog.classes.get(T + 'TlsStream')
            at = [x['n'] for x in c['fields'] if (x.get('t') or '').endswith('SocketAddress')] if c else []
            if len(at) != 1:
                raise CheckError('anchor vanished: the peer address of TlsStream')
            r.peer = at[0]
        chk.run(r, f, 40000, this=THIS)
        n += 1
        if isinstance(r, Peer):
            chk.require('address', 'peer|%s' % f['q'], f['file'], f['line'], r.shapes == set(BIN), 'the ip and port of an accepted peer are not told')
    if n < 4:
        raise CheckError('the uses of addresses are gone')


class Overload(Addr):
    def on_coro_call(self, eng, st, ins, f, obj, args):
        if qn(f['q']) == W + 'async_accept':
            self.room(eng, st, ins, [models.strip(x) for x in args])
        return None
