"""TLS streams and contexts (C29)."""
from .common import *
from .net import Sys, fns, touches, N, T, ROOT, THIS, W, plain, ERRNO
from . import net

CTX_FREE, SSL_FREE = 'SSL_CTX_free', 'SSL_free'


def accessor(prog, cls, name):
    """the field that a plain accessor returns"""
    c = prog.classes.get(cls)
    for m in (c or {}).get('methods', ()):
        f = prog.functions.get(m['id'])
        if f is not None and base_name(f['q']) == name and 'body' in f:
            got = {n['n'] for n in ir.walk(f['body']) if n.get('k') == 'mem' and any(x['n'] == n.get('n') for x in c['fields'])}
            if len(got) == 1:
                return got.pop()
    raise CheckError('anchor vanished: %s::%s' % (cls, name))


def by_type(prog, cls, t):
    c = prog.classes.get(cls)
    got = [x['n'] for x in (c or {}).get('fields', ()) if (x.get('t') or '').replace('const ', '') in t]
    if len(got) != 1:
        raise CheckError('anchor vanished: the %s of %s' % (t[0], cls))
    return got[0]


class Names:
    def __init__(self, prog):
        S = T + 'TlsStream'
        self.ssl = by_type(prog, S, ('SSL *', 'ssl_st *', 'struct ssl_st *'))
        self.role = by_type(prog, S, ('kio::tls::TlsRole', 'TlsRole'))
        self.sock = by_type(prog, S, ('net::Socket', 'kio::net::Socket'))
        self.done = accessor(prog, S, 'is_handshake_done')
        self.ktls = accessor(prog, S, 'is_ktls_active')
        self.ctx = by_type(prog, T + 'TlsContext', ('SSL_CTX *', 'ssl_ctx_st *', 'struct ssl_ctx_st *'))


class Tls(Sys):
    label = 'tls'
    watch = ('handshake', 'kernel', 'name', 'free', 'queue', 'wait', 'option', 'move', 'bytes')

    def __init__(self, names):
        super().__init__()
        self.nm = names
        self.made = 0

    def opt(self, st, name, v=1):
        d = dict(self.get(st, 'set') or ())
        d[name] = v
        self.put(st, set=tuple(sorted(d.items(), key=repr)))

    def sets(self, st):
        return dict(self.get(st, 'set') or ())

    def attempt(self, eng, st, ins, q, good=ONE, name=None, also=None):
        """a call that may fail"""
        s = st.copy()
        r = eng.sym(s, q, ins, 'int')
        s.facts = {**s.facts, mk_eq(sub(r, good)): False}
        if good == ONE:
            s.facts = {**s.facts, mk_le(r): True}
        self.put(s, bad=q)
        self.opt(st, name or q)
        if also:
            also(st)
        return [(st, good), (s, r)]

    def ssl_ok(self, eng, st, ins, p):
        self.need(eng, st, ins, plain(models.strip(p)) not in set(self.get(st, 'gone') or ()), 'free', 'an SSL object is used after it was freed')

    def role_is(self, eng, st):
        v = plain(models.strip(eng.load(st, (ROOT, self.nm.role), 'int')))
        t = bool(v[1]) if v[0] == 'c' else self.one_of(eng, st, v)
        return None if t is None else int(t)

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        void = ('unk', 'void', 0)
        vals = lambda: [plain(models.strip(models.val(eng, st, fn, args, i))) for i in range(len(args))]
        if q == T + 'detail::get_openssl_error':
            self.put(st, clean=1)
            return None if False else [(st, eng.sym(st, 'text', ins))]
        if q == 'ERR_clear_error':
            self.put(st, clean=1)
            return [(st, void)]
        if q.startswith('SSL_') or q.startswith('BIO_') or q.startswith('ERR_'):
            self.sites.add((st.top.fn.f['q'], ins.line))
        if q in ('SSL_connect', 'SSL_accept', 'SSL_do_handshake'):
            a = vals()
            self.ssl_ok(eng, st, ins, a[0])
            role = self.role_is(eng, st)
            self.need(eng, st, ins, q == 'SSL_do_handshake' or role == (0 if q == 'SSL_connect' else 1), 'handshake', 'a %s shakes hands as a %s' % (('server', 'client') if q == 'SSL_connect' else ('client', 'server')))
            self.need(eng, st, ins, self.get(st, 'clean') == 1, 'queue', 'an error that another call left in the queue may be taken for one of this call')
            self.named(eng, st, ins, role)
            s = st.copy()
            r = eng.sym(s, q, ins, 'int')
            s.facts = {**s.facts, mk_le(r): True}
            self.put(s, last=r, clean=None)
            self.put(st, hs=1, clean=None)
            return [(st, ONE), (s, r)]
        if q == 'SSL_is_init_finished':
            return [(st, C(self.get(st, 'hs') or 0))]
        if q == 'SSL_shutdown':
            self.ssl_ok(eng, st, ins, vals()[0])
            self.need(eng, st, ins, self.get(st, 'clean') == 1, 'queue', 'an error that another call left in the queue may be taken for one of this call')
            s, w = st.copy(), st.copy()
            r = eng.sym(s, q, ins, 'int')
            s.facts = {**s.facts, mk_le(add(r, ONE)): True}
            self.put(s, last=r)
            for x in (st, s, w):
                self.put(x, clean=None)
            return [(st, ONE), (w, ZERO), (s, r)]
        if q == 'SSL_get_error':
            a = vals()
            self.need(eng, st, ins, a[1] == self.get(st, 'last'), 'queue', 'the error of another call is looked up')
            e = eng.sym(st, 'ssl error', ins, 'int')
            self.put(st, err=e)
            return [(st, e)]
        if q in ('SSL_get_wbio', 'SSL_get_rbio'):
            return [(st, ('app', q, vals()[0]))]
        if q == 'BIO_ctrl':
            a = vals()
            if a[1] in (C(73), C(76)):
                want = 'SSL_get_wbio' if a[1] == C(73) else 'SSL_get_rbio'
                self.need(eng, st, ins, a[0][:2] == ('app', want), 'kernel', 'the kernel TLS of one direction is looked up on the other')
                return [(st, ('app', 'tx' if a[1] == C(73) else 'rx', C(self.get(st, 'hs') or 0)))]
        if q == 'SSL_ctrl' and vals()[1] == C(55):
            return self.attempt(eng, st, ins, q, name='sni')
        if q in ('SSL_set1_host', 'SSL_add1_host'):
            return self.attempt(eng, st, ins, q, name='host')
        if q == 'SSL_pending':
            r = eng.sym(st, 'pending', ins, 'int')
            return [(st, r)]
        if q == 'SSL_read':
            r = eng.sym(st, 'SSL_read', ins, 'int')
            a = vals()
            self.need(eng, st, ins, mentions(a[1], ('p', 'buf')) or self.nm is None, 'bytes', 'bytes are read elsewhere than to the buffer of the caller')
            self.put(st, read=r)
            return [(st, r)]
        if q == 'SSL_new':
            s = st.copy()
            self.put(s, bad=q)
            p = ('app', 'ssl', C(ins.idx))
            st.facts = {**st.facts, mk_eq(p): False}
            self.put(st, own=p)
            return [(st, p), (s, ZERO)]
        if q == 'SSL_set_fd':
            a = vals()
            self.need(eng, st, ins, a[1] == plain(models.strip(eng.load(st, (ROOT, self.nm.sock, net.OWNERS['kio::net::Socket']), 'int'))), 'handshake', 'TLS runs over another descriptor than that of the stream')
            return self.attempt(eng, st, ins, q)
        if q in (SSL_FREE, CTX_FREE):
            p = vals()[0]
            gone = set(self.get(st, 'gone') or ())
            self.need(eng, st, ins, p not in gone, 'free', 'an object of OpenSSL is freed twice')
            self.put(st, gone=tuple(sorted(gone | {p}, key=repr)))
            return [(st, void)]
        if q == 'SSL_CTX_new':
            s = st.copy()
            self.put(s, bad=q)
            p = ('app', 'ctx', C(ins.idx))
            m = vals()[0]
            st.facts = {**st.facts, mk_eq(p): False}
            self.put(st, own=p, method=m)
            return [(st, p), (s, ZERO)]
        if q in ('TLS_server_method', 'TLS_client_method', 'TLS_method'):
            return [(st, ('s', q))]
        if q == 'SSL_CTX_ctrl':
            a = vals()
            if a[1] == C(123):
                s = st.copy()
                self.put(s, bad=q)
                self.opt(st, 'min', a[2])
                return [(st, ONE), (s, ZERO)]
            return [(st, eng.sym(st, q, ins, 'long'))]
        if q == 'SSL_CTX_set_options':
            a = vals()
            if a[1][0] == 'c' and a[1][1] & 8:
                self.opt(st, 'ktls')
            return [(st, eng.sym(st, q, ins, 'unsigned long'))]
        if q == 'SSL_CTX_clear_options':
            d = self.sets(st)
            d.pop('ktls', None)
            self.put(st, set=tuple(sorted(d.items(), key=repr)))
            return [(st, eng.sym(st, q, ins, 'unsigned long'))]
        if q == 'SSL_CTX_set_num_tickets':
            if vals()[1] == ZERO:
                self.opt(st, 'no tickets')
            return [(st, ONE)]
        if q in ('SSL_CTX_use_certificate_chain_file', 'SSL_CTX_use_PrivateKey_file', 'SSL_CTX_check_private_key', 'SSL_CTX_load_verify_locations', 'SSL_CTX_set_cipher_list', 'SSL_CTX_set_ciphersuites'):
            return self.attempt(eng, st, ins, q)
        if q == 'SSL_CTX_set_alpn_protos':
            return self.attempt(eng, st, ins, q, good=ZERO)
        if q == 'SSL_CTX_set_verify':
            a = vals()
            self.opt(st, 'verify', a[1])
            self.need(eng, st, ins, a[2] == ZERO, 'option', 'a callback overrules the verification of the peer')
            return [(st, void)]
        if q == 'std::filesystem::path::empty':
            return [(st, mk_eq(('app', 'path size', obj)))]
        if q == 'std::__throw_runtime_error':
            return None
        return self.more2(eng, st, ins, fn, obj, args, q, b)

    def more2(self, eng, st, ins, fn, obj, args, q, b):
        if q.startswith('kio::alog::'):
            return [(st, ('unk', 'void', 0))]
        return None

    def named(self, eng, st, ins, role):
        pass

    def on_await(self, eng, st, ins, v):
        if v[0] != 'task':
            return None
        f = eng.prog.functions.get(v[2])
        q = qn(f['q'])
        if q == W + 'async_poll':
            a = [plain(models.strip(x)) for x in v[4]]
            e = self.get(st, 'err')
            self.sites.add((st.top.fn.f['q'], ins.line))
            if e is not None:
                for k, mask, what in ((2, 1, 'to be readable'), (3, 4, 'to be writable')):
                    if eng.truth(st, mk_eq(sub(e, C(k)))) is True:
                        self.need(eng, st, ins, a[1][0] == 'c' and a[1][1] & mask, 'wait', 'the stream does not wait for the socket %s' % what)
            self.need(eng, st, ins, a[0] == plain(models.strip(eng.load(st, (ROOT, self.nm.sock, net.OWNERS['kio::net::Socket']), 'int'))), 'wait', 'the stream waits for another socket')
            s = st.copy()
            self.put(st, clean=None, err=None)
            self.put(s, clean=None, err=None, bad='async_poll')
            return [(st, ('ok', eng.sym(st, 'events', ins, 'int'))), (s, ('err', eng.sym(s, 'reason', ins, 'int')))]
        if q.startswith(W):
            s = st.copy()
            return [(st, ('ok', eng.sym(st, 'done', ins, 'int'))), (s, ('err', eng.sym(s, 'reason', ins, 'int')))]
        return None

    def on_exit(self, eng, st, ins, how, val):
        v = models.strip(val) if val is not None else None
        if v is not None and v[0] == 'ok':
            self.oks += 1
        elif v is not None and v[0] == 'err':
            self.errs += 1
        self.end(eng, st, ins, how, v)

    def end(self, eng, st, ins, how, v):
        pass

    def one_of(self, eng, st, v):
        """which of the two values an enumeration has"""
        a, b = eng.truth(st, mk_eq(v)), eng.truth(st, mk_eq(sub(v, ONE)))
        if b is True or a is False:
            return True
        return False if a is True or b is False else None

    def yes(self, eng, st, v):
        v = plain(models.strip(v))
        if v[0] == 'c':
            return bool(v[1])
        return eng.truth(st, as_pred(v)) is True


class Handshake(Tls):
    def named(self, eng, st, ins, role):
        if role != 0:
            return
        n = ('fld', ('p', 'hostname'), '#size')
        t = any(eng.truth(st, mk_eq(x)) is True for x in (n, ('init', (('*', ('p', 'hostname')), '#size'), 0)))
        d = self.sets(st)
        self.need(eng, st, ins, t or 'host' in d and self.get(st, 'bad') not in ('SSL_set1_host', 'SSL_ctrl'), 'name', 'the name of the server is not checked')
        self.need(eng, st, ins, t or 'sni' in d, 'name', 'the server is not told the name it is called by')

    def end(self, eng, st, ins, how, v):
        H, K = ('init', (ROOT, self.nm.done), 0), ('init', (ROOT, self.nm.ktls), 0)
        now = lambda n: self.yes(eng, st, eng.load(st, (ROOT, n), 'bool'))
        hs = self.get(st, 'hs') == 1
        was = eng.truth(st, as_pred(H)) is True
        both = all(eng.truth(st, mk_le(sub(ONE, ('app', x, C(k))))) is True for x in ('tx', 'rx') for k in ((1,) if hs else (0,)))
        if now(self.nm.done):
            self.need(eng, st, ins, hs or was, 'handshake', 'the handshake is told to be done although it is not')
        if now(self.nm.ktls):
            self.need(eng, st, ins, both or eng.truth(st, as_pred(K)) is True, 'kernel', 'kernel TLS is told to be active although it is not, in both directions')
        if v is not None and v[0] == 'ok':
            self.need(eng, st, ins, hs or was, 'handshake', 'success is reported although the handshake is not done')
            self.need(eng, st, ins, now(self.nm.done), 'handshake', 'success is reported, and the handshake is not told to be done')
            self.need(eng, st, ins, now(self.nm.ktls) and (both or eng.truth(st, as_pred(K)) is True), 'kernel', 'success is reported although kernel TLS is not active in both directions: what is written goes out in the clear')


class Step(Tls):
    """a part of the handshake or of the shutdown"""

    def __init__(self, names, handshake):
        super().__init__(names)
        self.handshake = handshake

    def end(self, eng, st, ins, how, v):
        if self.handshake and v is not None and v[0] == 'ok':
            self.need(eng, st, ins, self.get(st, 'hs') == 1, 'handshake', 'success is reported although the handshake is not done')


class Make(Tls):
    """the constructor of a stream"""

    def end(self, eng, st, ins, how, v):
        own, gone = self.get(st, 'own'), self.get(st, 'gone') or ()
        now = plain(models.strip(eng.load(st, (ROOT, self.nm.ssl))))
        if how == 'exc':
            self.need(eng, st, ins, own is None or own in gone, 'free', 'the SSL object of a stream that could not be made is not freed')
            return
        self.need(eng, st, ins, own is not None and now == own and own not in gone, 'handshake', 'a stream is made without an SSL object of its own')
        self.need(eng, st, ins, self.get(st, 'bad') is None and 'SSL_set_fd' in self.sets(st), 'handshake', 'a stream is made although it could not be tied to its socket')
        for k in (self.nm.done, self.nm.ktls):
            self.need(eng, st, ins, not self.yes(eng, st, eng.load(st, (ROOT, k), 'bool')), 'handshake', 'a new stream tells that its handshake is done')


class Gone(Tls):
    """destructors"""

    def __init__(self, names, field):
        super().__init__(names)
        self.field = field

    def end(self, eng, st, ins, how, v):
        p = ('init', (ROOT, self.field), 0)
        null = eng.truth(st, mk_eq(p)) is True
        gone = tuple(self.get(st, 'gone') or ())
        self.need(eng, st, ins, gone == (() if null else (p,)) or null and gone == (ZERO,), 'free', 'the object of OpenSSL is not freed exactly once with its owner')


class Move(Tls):
    """moving a stream or a context"""

    def __init__(self, names, cls, f, ck, ptr, fields):
        super().__init__(names)
        self.cls, self.f, self.ck, self.ptr, self.fields = cls, f, ck, ptr, fields

    def end(self, eng, st, ins, how, v):
        other = ('*', ('p', self.f['params'][0]['n']))
        p, o = ('init', (ROOT, self.ptr), 0), ('init', (other, self.ptr), 0)
        now, then = plain(models.strip(eng.load(st, (ROOT, self.ptr)))), plain(models.strip(eng.load(st, (other, self.ptr))))
        gone = set(self.get(st, 'gone') or ()) - {ZERO}
        if self.ck == 'moveassign' and now == p and then == o and not gone:
            return      # assigned to itself
        self.need(eng, st, ins, now == o and then == ZERO, 'move', 'the object of OpenSSL does not change its owner: it is freed twice, or never')
        null = eng.truth(st, mk_eq(p)) is True
        self.need(eng, st, ins, gone == (set() if null or self.ck == 'move' else {p}), 'free', 'the object of OpenSSL that was owned before is not freed exactly once')
        for x in self.fields:
            a, b = eng.load(st, (ROOT, x)), ('init', (other, x), 0)
            self.need(eng, st, ins, repr(b)[9:-4] in repr(a) or repr((other, x))[1:-1] in repr(a), 'move', 'what %s says is lost when the object is moved' % x, key='%s|%s' % (self.f['q'], x))


class Same(Tls):
    """assigning an object to itself"""

    def __init__(self, names, ptr):
        super().__init__(names)
        self.ptr = ptr

    def end(self, eng, st, ins, how, v):
        now = plain(models.strip(eng.load(st, (ROOT, self.ptr))))
        self.need(eng, st, ins, now == ('init', (ROOT, self.ptr), 0) and not set(self.get(st, 'gone') or ()) - {ZERO}, 'move', 'an object that is assigned to itself loses what it owns')


class Role(Tls):
    """making a context for clients or for servers"""

    def __init__(self, names, make, want):
        super().__init__(names)
        self.make, self.want, self.calls = make, want, 0

    def on_call(self, eng, st, ins, fn, obj, args):
        if qn(fn['q']) == self.make:
            a = [plain(models.strip(models.val(eng, st, fn, args, i))) for i in range(len(args))]
            self.need(eng, st, ins, self.want in a, 'option', 'a context is made for the other role')
            self.calls += 1
            s = st.copy()
            return [(st, ('ok', eng.sym(st, 'context', ins))), (s, ('err', eng.sym(s, 'reason', ins, 'int')))]
        return super().on_call(eng, st, ins, fn, obj, args)


class Context(Tls):
    """TlsContext::make"""

    def __init__(self, names, cfg, server):
        super().__init__(names)
        self.cfg, self.server = cfg, server
        self.maps = set()

    def more2(self, eng, st, ins, fn, obj, args, q, b):
        # the protocols of ALPN: each its length in one byte, then its text
        if q == 'std::vector::push_back' and obj is not None:
            v = plain(models.strip(models.val(eng, st, fn, args, 0)))
            if '#size' in repr(v):
                self.need(eng, st, ins, (v[0] in ('init', 'fld')) and eng.entails_le(st, sub(ONE, v)) and eng.entails_le(st, sub(v, C(255))), 'option', 'the length of a protocol does not fit its byte', key='protocol')
                self.put(st, pend=v)
        if q == 'std::vector::insert' and len(args) == 3 and self.get(st, 'pend') is not None:
            a = [plain(models.strip(models.val(eng, st, fn, args, i))) for i in range(3)]
            end = add(eng.load(st, obj[1:] + ('#data',)), eng.load(st, obj[1:] + ('#size',))) if obj[0] == '&' else None
            if a[1][0] != 'sym' and a[2][0] != 'sym' and end is not None:
                self.need(eng, st, ins, a[0] == plain(end) and sub(a[2], a[1]) == self.get(st, 'pend'), 'option', 'the text of a protocol does not follow its length', key='protocol')
        return super().more2(eng, st, ins, fn, obj, args, q, b)

    def end(self, eng, st, ins, how, v):
        own, gone = self.get(st, 'own'), set(self.get(st, 'gone') or ())
        if v is None or v[0] != 'ok':
            self.need(eng, st, ins, own is None or own in gone, 'free', 'the context of a failure is not freed')
            return
        need = lambda ok, m, k=None: self.need(eng, st, ins, ok, 'option', m, key=k)
        self.need(eng, st, ins, own is not None and own not in gone and mentions(v[1] if v[1][0] != '&' else eng.load(st, v[1][1:]), own), 'free', 'the context handed out is freed')
        d, bad = self.sets(st), self.get(st, 'bad')
        need(bad is None, 'success is reported although %s failed' % bad, 'bad')
        server = self.server
        m = self.get(st, 'method')
        need(m in (('s', 'TLS_method'), ('s', 'TLS_server_method' if server else 'TLS_client_method')), 'a context of the other role is made', 'method')
        cfg = lambda n: ('init', (('*', ('p', self.cfg)), n), 0)
        mv, low = d.get('min'), cfg('min_version')
        if mv is not None and mv[0] == 'app' and mv[2:] == (low,):
            self.maps.add(mv[1])
        else:
            new = self.one_of(eng, st, low)
            need(mv is not None and new is not None and mv == C(0x304 if new else 0x303), 'the lowest version that is accepted is not the one asked for', 'min')
        need('ktls' in d, 'kernel TLS is not asked for', 'ktls')
        need(d.get('verify') == cfg('verify_mode'), 'the peer is not verified as asked for', 'verify')
        empty_p = lambda n: eng.truth(st, mk_eq(('app', 'path size', ('&', ('*', ('p', self.cfg)), n)))) is True
        empty_s = lambda n: any(eng.truth(st, mk_eq(('init', (('*', ('p', self.cfg)), n) + x, 0))) is True for x in (('#size',),)) or eng.truth(st, ('app', 'std::vector::empty', ('&', ('*', ('p', self.cfg)), n))) is True
        if server:
            need('no tickets' in d, 'a server sends session tickets that kernel TLS cannot read', 'tickets')
            need('SSL_CTX_use_certificate_chain_file' in d and 'SSL_CTX_use_PrivateKey_file' in d, 'a server is made without certificate or key', 'server')
        for n, call in (('cert_path', 'SSL_CTX_use_certificate_chain_file'), ('key_path', 'SSL_CTX_use_PrivateKey_file'), ('ca_cert_path', 'SSL_CTX_load_verify_locations'), ('ca_dir_path', 'SSL_CTX_load_verify_locations')):
            need(call in d or empty_p(n), 'the setting %s is ignored' % n, n)
        need('SSL_CTX_use_PrivateKey_file' not in d or 'SSL_CTX_check_private_key' in d, 'it is not checked whether key and certificate match', 'pair')
        for n, call in (('cipher_suites', 'SSL_CTX_set_cipher_list'), ('ciphersuites_tls13', 'SSL_CTX_set_ciphersuites'), ('alpn_protocols', 'SSL_CTX_set_alpn_protos')):
            need(call in d or empty_s(n), 'the setting %s is ignored' % n, n)
        self.made += 1


class Version(Tls):
    """the number OpenSSL gives a version"""

    def __init__(self, names, want):
        super().__init__(names)
        self.want = want

    def end(self, eng, st, ins, how, v):
        self.need(eng, st, ins, how == 'ret' and v is not None and plain(v) == self.want, 'option', 'the lowest version that is accepted is not the one asked for')


class Hand(Tls):
    """accept and connect: what is handed out"""

    def __init__(self, names, role, name):
        super().__init__(names)
        self.role, self.name = role, name

    def on_await(self, eng, st, ins, v):
        f = eng.prog.functions.get(v[2]) if v[0] == 'task' else None
        if f is not None and qn(f['q']) == T + 'TlsStream::async_handshake':
            self.sites.add((st.top.fn.f['q'], ins.line))
            if self.name is not None:
                self.need(eng, st, ins, any(mentions(x, ('p', self.name)) for x in v[4]), 'name', 'the name of the server is not checked')
            s = st.copy()
            self.put(st, hs=v[3])
            return [(st, ('ok', ('unk', 'void', 0))), (s, ('err', eng.sym(s, 'reason', ins, 'int')))]
        if f is not None and q_of(f).startswith(W):
            s = st.copy()
            self.put(s, bad=base_name(f['q']))
            return [(st, ('ok', eng.sym(st, 'done', ins, 'int'))), (s, ('err', eng.sym(s, 'reason', ins, 'int')))]
        return None

    def more2(self, eng, st, ins, fn, obj, args, q, b):
        if q == T + 'TlsStream::TlsStream' and len(args) == 4:
            r = plain(models.strip(models.val(eng, st, fn, args, 3)))
            self.need(eng, st, ins, r == C(self.role), 'handshake', 'the stream is made for the other role')
            return [(st, None)]
        f = eng.prog.functions.get(fn.get('id'))
        if f is not None and q.startswith('kio::net::') and ('expected' in (f.get('rt') or '') or 'Result' in (f.get('rt') or '')):
            s = st.copy()
            return [(st, ('ok', eng.sym(st, b, ins))), (s, ('err', eng.sym(s, b, ins, 'int')))]
        return super().more2(eng, st, ins, fn, obj, args, q, b)

    def end(self, eng, st, ins, how, v):
        if v is not None and v[0] == 'ok':
            self.need(eng, st, ins, self.get(st, 'hs') is not None and self.get(st, 'hs') == v[1], 'handshake', 'a stream is handed out whose handshake is not done')


def q_of(f):
    return qn(f['q'])


class Bytes(Tls):
    """reading and writing: functions that return the operation of the worker"""

    def __init__(self, names, op, buf):
        super().__init__(names)
        self.op, self.buf = op, buf
        self.paths = 0

    def end(self, eng, st, ins, how, v):
        if v is None or v[0] != 'task':
            self.need(eng, st, ins, False, 'bytes', 'no operation is handed out')
            return
        f = eng.prog.functions.get(v[2])
        a = [plain(models.strip(x)) for x in v[4]]
        r = self.get(st, 'read')
        if q_of(f) == W + self.op:
            fd = plain(models.strip(eng.load(st, (ROOT, self.nm.sock, net.OWNERS['kio::net::Socket']), 'int')))
            self.need(eng, st, ins, a[0] == fd, 'bytes', 'the operation is on another descriptor than that of the stream')
            self.need(eng, st, ins, a[1] == ('p', self.buf) or mentions(a[1], ('p', self.buf)) and a[1][0] != 'span', 'bytes', 'the operation is not on the buffer of the caller')
            self.need(eng, st, ins, r is None or eng.entails_le(st, r), 'bytes', 'bytes that were read are dropped')
            self.paths += 1
            return
        self.need(eng, st, ins, r is not None and r in a and eng.entails_le(st, sub(ONE, r)), 'bytes', 'the number of bytes told is not the number that was read')


def check(chk):
    prog = chk.prog
    net.owners(prog)
    nm = Names(prog)
    S, X = T + 'TlsStream', T + 'TlsContext'
    this = dict(this=THIS)
    seen = 0

    def run(r, f, **kw):
        budget = kw.pop("budget", 40000)
        chk.run(r, f, budget, **{**this, **kw})
        return r
    bools = {}
    for f in fns(chk, S + '::async_handshake'):
        r = run(Handshake(nm), f)
        if not r.oks or not r.errs:
            raise CheckError('async_handshake: no success or no failure seen')
    for f in prog.functions.values():
        if 'body' in f and not f.get('lambda') and q_of(f).startswith(S + '::') and any(qn(c[0]['q']) in ('SSL_connect', 'SSL_accept', 'SSL_shutdown') for c in ir.calls_of(f)) and base_name(f['q']) != 'async_handshake':
            run(Step(nm, any(qn(c[0]['q']) in ('SSL_connect', 'SSL_accept') for c in ir.calls_of(f))), f)
            seen += 1
    if not seen:
        raise CheckError('anchor vanished: the steps of a TLS stream')
    reads = {}
    for cls, ptr in ((S, nm.ssl), (X, nm.ctx)):
        c = prog.classes[cls]
        fields = [x['n'] for x in c['fields'] if x['n'] != ptr and not (x.get('t') or '').endswith('&')]
        used = set()
        for f in prog.functions.values():
            if 'body' not in f or not q_of(f).startswith(cls + '::'):
                continue
            for n in ir.walk(f['body']):
                if n.get('k') == 'mem' and n.get('n') in fields and not any(m['id'] == f['id'] and m.get('ck') in ('ctor', 'move', 'moveassign', 'dtor') for m in c['methods']):
                    used.add(n['n'])
        for m in c['methods']:
            f, ck = prog.functions.get(m['id']), m.get('ck')
            if ck in ('copy', 'copyassign'):
                chk.require('tls', 'copy|%s' % cls, c.get('file', '?'), c.get('line', 0), bool(m.get('deleted')), 'an owner of an object of OpenSSL can be copied: it is freed twice')
            if f is None or 'body' not in f or f.get('deleted'):
                continue
            if ck == 'dtor':
                run(Gone(nm, ptr), f)
                reads[cls] = reads.get(cls, 0) + 1
            elif ck in ('move', 'moveassign') and not f.get('defaulted'):
                run(Move(nm, cls, f, ck, ptr, sorted(used)), f)
                if ck == 'moveassign':
                    run(Same(nm, ptr), f, this=('&', ROOT), args=[('&', ROOT)])
            elif ck in ('move', 'moveassign'):
                chk.require('tls', 'move|%s' % cls, f['file'], f['line'], False, 'an owner of an object of OpenSSL is moved like a plain pointer: it is freed twice')
            elif ck == 'ctor' and cls == S and len(f['params']) >= 3:
                run(Make(nm), f)
                reads['make'] = 1
    if set(reads) != {S, X, 'make'}:
        raise CheckError('anchor vanished: constructor or destructor of a TLS stream or context')
    for f in fns(chk, X + '::make'):
        cfg = [x['n'] for x in f['params'] if 'TlsConfig' in x['t']][0]
        role = ('p', [x['n'] for x in f['params'] if 'TlsRole' in x['t']][0])
        maps = set()
        for k in (0, 1):
            r = run(Context(nm, cfg, k == 1), f, budget=600000, facts={mk_eq(role): k == 0, mk_eq(sub(role, ONE)): k == 1})
            if not r.made:
                raise CheckError('TlsContext::make: no success seen')
            maps |= r.maps
        for q in sorted(maps):
            for g in fns(chk, q):
                for k, want in ((0, 0x303), (1, 0x304)):
                    run(Version(nm, C(want)), g, args=[C(k)])
    for name, k in (('make_client', 0), ('make_server', 1)):
        for f in fns(chk, X + '::' + name):
            r = run(Role(nm, X + '::make', C(k)), f)
            if not r.calls:
                raise CheckError('%s: no context seen' % name)
    for f in fns(chk, T + 'TlsListener::accept'):
        run(Hand(nm, 1, None), f)
    for f in fns(chk, T + 'TlsConnector::connect'):
        run(Hand(nm, 0, f['params'][0]['n']), f)
    for name in ('async_read', 'async_write', 'async_write_exact'):
        for f in fns(chk, S + '::' + name):
            if f.get('coro'):
                continue
            r = run(Bytes(nm, name, f['params'][0]['n']), f)
            if not r.paths:
                raise CheckError('%s: no operation of the worker seen' % name)
