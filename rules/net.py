"""System calls, descriptors and addresses: failures and their reasons (C26), ownership of descriptors (C27)."""
import re
import errno as En
from .common import *
from .worker import Wk
from .uring import THIS, ROOT, W, plain

ERRNO = (('glob', 'errno'),)
MAKERS = {'socket', 'accept', 'accept4', 'open', 'openat', 'eventfd', 'dup', 'creat', 'epoll_create1', 'timerfd_create'}
CALLS = {'bind', 'listen', 'setsockopt', 'getsockopt', 'fcntl', 'ioctl', 'fstat', 'stat', 'fsync', 'fdatasync', 'shutdown', 'getsockname', 'getpeername',
         'unlink', 'ftruncate', 'connect', 'mkdir', 'uname', 'pread', 'pwrite', 'rename'}
# options that tune a socket: what they ask for may be denied without making the socket unusable
SOFT = {(6, 1), (1, 9), (1, 15)}     # TCP_NODELAY, SO_KEEPALIVE, SO_REUSEPORT
CLOBBER = {'strerror', 'strerror_r', 'perror', 'printf', 'fprintf', 'getaddrinfo', 'std::filesystem::exists', 'std::filesystem::create_directories'}
OWNERS = {'kio::net::Socket': 'fd_', 'kio::net::FDGuard': 'fd', 'kio::File': 'fd_', 'bitcask::FileHandle': 'fd_'}
TRANSIENT = (En.ETIME, En.ETIMEDOUT, En.EINTR, En.EAGAIN, En.EBUSY)
WAIT_FD = {'async_openat', 'async_accept'}


def reason(q, st, ins):
    return ('app', 'errno', ('s', q), C(st.top.ctx), C(ins.idx))


class Sys(Wk):
    """failures of system calls and the descriptors that are open on each path"""
    label = 'calls'
    numeric = True
    heap_volatile = False
    max_states = 400
    max_head = 60
    watch = ('reason', 'success', 'order', 'leak', 'double', 'flags')

    def __init__(self, soft=(), order=None):
        super().__init__()
        self.soft = set(soft)
        self.sites = set()
        self.oks = self.errs = 0
        self.carried = False

    def need(self, eng, st, ins, ok, what, msg, key=None):
        if what in self.watch:
            return super().need(eng, st, ins, ok, what, msg, key)
        return ok

    def may_throw(self, eng, st, ins, fn):
        return False

    # ---- outcomes of a call
    def failed(self, eng, st, e, soft):
        self.put(st, **{'soft' if soft else 'must': e})
        st.facts = {**st.facts, mk_le(sub(ONE, e)): True, mk_le(sub(e, C(999))): True}

    def opened(self, st, fd):
        self.put(st, raw=tuple(sorted(set(self.get(st, 'raw') or ()) | {fd}, key=repr)), gone=tuple(x for x in self.get(st, 'gone') or () if x != fd) or None, given=tuple(x for x in self.get(st, 'given') or () if x != fd) or None)
        st.facts = {**st.facts, mk_le(scale(fd, -1)): True}

    def closed(self, eng, st, ins, fd):
        raw = set(self.get(st, 'raw') or ())
        gone = set(self.get(st, 'gone') or ())
        fd = plain(models.strip(fd))
        if fd in raw:
            self.put(st, raw=tuple(sorted(raw - {fd}, key=repr)) or None, gone=tuple(sorted(gone | {fd}, key=repr)))
            return
        self.need(eng, st, ins, fd not in gone, 'double', 'a descriptor is closed twice: the second time it may be one that was opened since')
        if fd[0] == 'c':
            self.need(eng, st, ins, fd[1] < 0, 'double', 'a fixed descriptor is closed')

    def used(self, eng, st, ins, fd):
        fd = plain(models.strip(fd))
        self.need(eng, st, ins, fd not in set(self.get(st, 'gone') or ()), 'double', 'a descriptor is used after it was closed')

    def event(self, st, name):
        d = list(self.get(st, 'seen') or ())
        if name not in d:
            self.put(st, seen=tuple(d + [name]))

    def checks(self, eng, st, ins, q, a):
        pass

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        vals = lambda: [models.val(eng, st, fn, args, i) for i in range(len(args))]
        if q in MAKERS:
            self.sites.add((st.top.fn.f['q'], ins.line))
            s = st.copy()
            fd = ('app', 'fd', ('s', q), C(st.top.ctx), C(ins.idx))
            self.checks(eng, st, ins, q, vals())
            self.opened(st, fd)
            e = reason(q, s, ins)
            self.failed(eng, s, e, False)
            eng.store(s, ERRNO, e)
            return [(st, fd), (s, C(-1))]
        if q in CALLS:
            self.sites.add((st.top.fn.f['q'], ins.line))
            a = vals()
            if q not in ('uname', 'stat', 'mkdir', 'unlink', 'rename'):
                self.used(eng, st, ins, a[0])
            self.checks(eng, st, ins, q, a)
            s = st.copy()
            e = reason(q, s, ins)
            soft = q in self.soft or q == 'setsockopt' and a[1][0] == 'c' and a[2][0] == 'c' and (a[1][1], a[2][1]) in SOFT
            self.failed(eng, s, e, soft)
            eng.store(s, ERRNO, e)
            self.event(st, q)
            self.done(eng, st, ins, q, a)
            r = ZERO
            if q in ('pread', 'pwrite') or q == 'fcntl' and a[1] in (C(1), C(3)):
                r = eng.sym(st, q, ins, 'int')
                st.facts = {**st.facts, mk_le(scale(r, -1)): True}
            elif q == 'fstat':
                eng.store(st, eng.loc_of(args[1]) + ('st_size',), ('app', 'file size', plain(a[0])))
            return [(st, r), (s, C(-1))]
        if q == 'write':
            self.sites.add((st.top.fn.f['q'], ins.line))
            s = st.copy()
            e = reason(q, s, ins)
            self.failed(eng, s, e, q in self.soft)
            eng.store(s, ERRNO, e)
            return [(st, vals()[2]), (s, C(-1))]
        if q == 'close':
            self.closed(eng, st, ins, vals()[0])
            # also a close that succeeds leaves errno undefined
            eng.store(st, ERRNO, ('app', 'clobbered', ('s', q), C(st.top.ctx), C(ins.idx)))
            return [(st, eng.sym(st, 'close', ins, 'int'))]
        if q.startswith('io_uring_') and q in ('io_uring_queue_init_params', 'io_uring_submit', 'io_uring_queue_init', 'io_uring_submit_and_wait', 'io_uring_register_iowq_aff'):
            self.sites.add((st.top.fn.f['q'], ins.line))
            s = st.copy()
            e = reason(q, s, ins)
            self.failed(eng, s, e, q in self.soft)
            if self.get(st, 'must') is not None and self.get(st, 'must')[2][1] == q:
                self.put(st, must=None)      # done at the second attempt
            return [(st, ONE), (s, scale(e, -1))]
        if q in CLOBBER or q.startswith('kio::alog::') or q.startswith('kio::Logger') or q.startswith('SSL_') or q.startswith('ERR_'):
            eng.store(st, ERRNO, ('app', 'clobbered', ('s', q), C(st.top.ctx), C(ins.idx)))
            if q.startswith('kio::alog::'):
                return [(st, ('unk', 'void', 0))]
            return self.clobbered(eng, st, ins, fn, obj, args, q)
        if q == 'std::system_error::system_error' and args:
            self.why(eng, st, ins, models.val(eng, st, fn, args, 0), 'thrown')
        return self.more(eng, st, ins, fn, obj, args, q, b)

    def clobbered(self, eng, st, ins, fn, obj, args, q):
        if q == 'getaddrinfo':
            r = eng.sym(st, 'getaddrinfo', ins, 'int')
            res = eng.loc_of(args[3])
            s = st.copy()
            s.facts = {**s.facts, mk_eq(r): False}
            self.put(s, gai=1, must=None)
            st.facts = {**st.facts, mk_eq(r): True}
            p = ('app', 'addrinfo', C(st.top.ctx), C(ins.idx))
            eng.store(st, res, p)
            st.facts = {**st.facts, mk_eq(p): False}
            self.put(st, list='open')
            return [(st, ZERO), (s, r)]
        return None

    def more(self, eng, st, ins, fn, obj, args, q, b):
        return None

    def done(self, eng, st, ins, q, a):
        pass

    def on_await(self, eng, st, ins, v):
        if v[0] != 'task':
            return None
        f = eng.prog.functions.get(v[2])
        q = qn(f['q'])
        if not q.startswith(W + 'async_'):
            return None
        b = base_name(f['q'])
        self.sites.add((st.top.fn.f['q'], ins.line))
        a = [models.strip(x) for x in v[4]]
        s = st.copy()
        e = reason(b, s, ins)
        ok = ('unk', 'void', 0)
        if b == 'async_close':
            self.closed(eng, st, ins, a[0])
            self.closed(eng, s, ins, a[0])
        elif b in WAIT_FD:
            ok = ('app', 'fd', ('s', b), C(st.top.ctx), C(ins.idx))
            self.opened(st, ok)
        else:
            if b not in ('async_unlink_at', 'async_sleep'):
                self.used(eng, st, ins, a[0])
            if b not in ('async_sleep',):
                ok = eng.sym(st, b, ins, 'int')
        self.waited(eng, st, ins, b, a, v)
        self.event(st, b)
        self.failed(eng, s, e, b in self.soft or b == 'async_close')
        for x in (st, s):
            eng.store(x, ERRNO, ('app', 'clobbered', ('s', 'await'), C(st.top.ctx), C(ins.idx)))
        return [(st, ('ok', ok)), (s, ('err', e))]

    def waited(self, eng, st, ins, b, a, v):
        pass

    # ---- owners
    def owner(self, cls):
        c = cls.replace('const ', '').strip()
        return c if c in OWNERS else None

    def on_dtor(self, eng, st, ins, a, cls):
        c = cls.replace('const ', '').strip()
        if c in OWNERS or a[0] != '&':
            return None
        if self.get(st, 'half') and c in self.get(st, 'half'):
            return eng.next(st, ins)
        for loc in self.members(eng.prog, c):
            v = plain(models.strip(eng.load(st, a[1:] + loc, 'int')))
            if v in set(self.get(st, 'raw') or ()) | set(self.get(st, 'gone') or ()):
                self.closed(eng, st, ins, v)
        return None

    def members(self, prog, c, depth=0):
        k = prog.classes.get(c)
        out = []
        if k is None or depth > 3:
            return out
        for f in k.get('fields', ()):
            t = (f.get('t') or '').replace('const ', '').strip()
            if t in OWNERS:
                out.append((f['n'], OWNERS[t]))
            elif t in prog.classes and not t.startswith('std::'):
                out += [(f['n'],) + x for x in self.members(prog, t, depth + 1)]
        return out

    # ---- the end
    def why(self, eng, st, ins, x, kind):
        """x is reported as the reason of a failure"""
        x = plain(models.strip(x))
        must, soft = self.get(st, 'must'), self.get(st, 'soft')
        same = lambda e: e is not None and (x == e or x == eng.project(e, 'value'))
        if must is not None:
            return self.need(eng, st, ins, same(must), 'reason', 'the error reported is not the reason of the call that failed (%s)' % must[2][1])
        if same(soft):
            return True
        if x[0] == 'c':
            return self.need(eng, st, ins, x[1] > 0, 'reason', 'the error reported is no error code')
        if x[0] == 'app' and x[1] in ('clobbered', 'errno') or x[:2] == ('init', ERRNO):
            return self.need(eng, st, ins, False, 'reason', 'errno is reported although a call made since may have changed it')
        return self.need(eng, st, ins, eng.numok(x) and eng.entails_le(st, sub(ONE, x)), 'reason', 'the error reported need not be positive')

    def on_exit(self, eng, st, ins, how, val):
        v = models.strip(val) if val is not None else None
        for fd in self.get(st, 'raw') or ():
            kept = v is not None and v[0] == 'ok' and self.carries(eng, st, v, fd) or fd in (self.get(st, 'given') or ()) or self.kept(eng, st, fd)
            self.carried |= fd not in (self.get(st, 'given') or ())
            self.need(eng, st, ins, kept, 'leak', 'a descriptor (%s) is neither closed nor handed over' % fd[2][1])
        if how == 'exc':
            return
        if v is not None and v[0] == 'ok':
            self.oks += 1
            must = self.get(st, 'must')
            self.need(eng, st, ins, must is None, 'success', 'success is reported although %s failed' % (must[2][1] if must else ''))
            for fd in self.get(st, 'gone') or ():
                self.need(eng, st, ins, not self.carries(eng, st, v, fd), 'double', 'a closed descriptor is handed out')
            self.on_ok(eng, st, ins, v)
        elif v is not None and v[0] == 'err':
            self.errs += 1
            w = v[1]
            x = eng.load(st, eng.loc_of(w) + ('value',)) if w[0] == '&' else eng.project(w, 'value') if w[0] in ('rec', 'app') and not (w[0] == 'app' and w[1] == 'errno') else w
            self.on_err(eng, st, ins, x)
        else:
            self.on_other(eng, st, ins, v)

    def carries(self, eng, st, v, fd):
        x = v[1]
        if x[0] == '&':
            x = eng.load(st, eng.loc_of(x))
        return any(m == fd for m in subterms(x))

    def kept(self, eng, st, fd):
        return False

    def on_ok(self, eng, st, ins, v):
        pass

    def on_err(self, eng, st, ins, x):
        self.why(eng, st, ins, x, 'returned')

    def on_other(self, eng, st, ins, v):
        pass


class Server(Sys):
    """a socket that listens"""

    def __init__(self, backlog=None, addr=None, **kw):
        super().__init__(**kw)
        self.backlog, self.addr = backlog, addr

    def checks(self, eng, st, ins, q, a):
        seen = self.get(st, 'seen') or ()
        if q == 'listen':
            self.need(eng, st, ins, 'bind' in seen, 'order', 'the socket listens before it is bound')
            self.need(eng, st, ins, self.backlog is None or plain(a[1]) == self.backlog, 'order', 'the socket listens with another backlog than asked for')
        if q == 'bind' and self.addr is not None:
            loc, ln = self.addr(eng, st)
            self.need(eng, st, ins, a[1] == loc and eq(eng, st, plain(a[2]), ln), 'order', 'the socket is not bound to the whole address it was given')
        if q == 'fcntl' and a[1] == C(4):
            self.need(eng, st, ins, a[2][0] == 'c' and a[2][1] & 2048 or a[2][0] != 'c' and '2048' in repr(a[2]), 'order', 'the socket does not become non-blocking')

    def on_ok(self, eng, st, ins, v):
        seen = self.get(st, 'seen') or ()
        for q in ('bind', 'fcntl', 'listen'):
            self.need(eng, st, ins, q in seen, 'order', 'success is reported without %s: the socket does not %s' % (q, {'bind': 'have its address', 'fcntl': 'return at once', 'listen': 'listen'}[q]))


class Options(Sys):
    """address reuse is set"""

    def done(self, eng, st, ins, q, a):
        if q == 'setsockopt' and (a[1], a[2]) == (C(1), C(2)):
            v = eng.load(st, eng.loc_of(a[3]), 'int') if a[3][0] == '&' else a[3]
            self.need(eng, st, ins, v == ONE, 'order', 'address reuse is switched off')
            self.event(st, 'reuse')

    def on_ok(self, eng, st, ins, v):
        self.need(eng, st, ins, 'reuse' in (self.get(st, 'seen') or ()), 'order', 'success is reported although address reuse was not set')


class Start(Sys):
    """part of a worker"""

    def kept(self, eng, st, fd):
        return eng.load(st, (ROOT, 'wakeup_fd_'), 'int') == fd

    def on_other(self, eng, st, ins, v):
        must = self.get(st, 'must')
        if must is not None:
            # a wake-up that fails for a transient reason may be left alone
            ok = must[2][1] == 'write' and any(eng.truth(st, mk_eq(sub(must, C(k)))) is True for k in TRANSIENT)
            self.need(eng, st, ins, ok, 'success', 'the failure of %s is not reported' % must[2][1])


class New(Sys):
    """a new stream socket of the family asked for"""

    def __init__(self, close_on_exec):
        super().__init__()
        self.coe = close_on_exec

    def checks(self, eng, st, ins, q, a):
        if q == 'socket':
            t = a[1][1] if a[1][0] == 'c' else 0
            self.need(eng, st, ins, a[0] == ('p', 'family') and t & 0xf == 1 and a[2] in (ZERO, C(6)), 'order', 'the socket is not a stream socket of the family asked for')
            self.need(eng, st, ins, not self.coe or t & 2048 and t & 0o2000000, 'flags', 'the socket is inherited by other programs, or blocks')


def fns(chk, q, n=None):
    fs = [f for f in chk.prog.functions.values() if qn(f['q']) == q and 'body' in f and not f.get('lambda') and (n is None or len(f['params']) == n)]
    if not fs:
        raise CheckError('anchor vanished: %s' % q)
    return fs


N, T = 'kio::net::', 'kio::tls::'
FUNCTIONS = [
    (N + 'create_tcp_fd', lambda: New(True)),
    (N + 'create_raw_socket', lambda: New(False)),
    (N + 'set_tcp_fd_options', lambda: Sys()),
    (N + 'set_fd_server_options', lambda: Options()),
    (N + 'listen_on_sock', lambda: Server(backlog=('p', 'backlog'))),
    (N + 'create_tcp_server_socket', lambda: Server(backlog=('p', 'backlog'))),
    (T + 'TlsListener::bind', lambda: Server()),
    (W + 'Worker', lambda: Start()),
    (W + 'initialize', lambda: Start(soft={'io_uring_register_iowq_aff'})),
    (W + 'wakeup_write', lambda: Start()),
    ('bitcask::get_file_size', lambda: Sys()),
    ('bitcask::read_file_content', lambda: Sys()),
]


def check(chk, watch):
    for q, mk in FUNCTIONS:
        for f in fns(chk, q):
            r = mk()
            r.watch = watch
            chk.run(r, f, 40000, this=THIS)
            if not r.sites:
                raise CheckError('%s: no system call seen' % q)


def check_ownership(chk):
    owners(chk.prog)
    check(chk, ("leak", "double"))
    check_flow(chk)
    check_wrappers(chk)


def check_failures(chk):
    check(chk, ('reason', 'success', 'order', 'flags'))


# ------------------------------------------------------------------------------------------------ owners
class Own(Sys):
    """one method of a class that owns a descriptor"""
    label = 'owner'
    watch = ('close', 'keep', 'take', 'give', 'value')
    mode = None
    field = None

    def __init__(self, cls, f, alias=False):
        super().__init__()
        self.cls, self.f, self.alias = cls, f, alias
        self.field = OWNERS[cls]
        self.took = False

    def F(self):
        return ('init', (ROOT, self.field), 0)

    def closed(self, eng, st, ins, fd):
        fd = plain(models.strip(fd))
        d = list(self.get(st, 'shut') or ())
        self.need(eng, st, ins, fd not in d, 'close', 'the descriptor is closed twice')
        neg = eng.entails_le(st, add(fd, ONE)) if eng.numok(fd) else False
        self.need(eng, st, ins, not neg, 'close', 'no descriptor is closed')
        self.put(st, shut=tuple(d + [fd]))

    def on_exit(self, eng, st, ins, how, val):
        f, F = self.f, self.F()
        shut = set(self.get(st, 'shut') or ())
        now = plain(models.strip(eng.load(st, (ROOT, self.field), 'int')))
        neg = lambda x: eng.numok(x) and eng.entails_le(st, add(x, ONE))
        held = not neg(F)
        name, ck = base_name(f['q']), self.ck
        ps = f['params']
        need = lambda ok, w, m: self.need(eng, st, ins, ok, w, m)
        if ck == 'dtor':
            need(shut == ({F} if held else set()), 'close', 'the descriptor is not closed when its owner goes')
            return
        if self.alias:
            need(not shut and now == F, 'keep', 'an owner that is assigned to itself loses its descriptor')
            return
        if ck in ('move', 'moveassign'):
            oth = (('*', ('p', ps[0]['n'])), self.field)
            G = ('init', oth, 0)
            then = plain(models.strip(eng.load(st, oth, 'int')))
            if name == 'operator=' and not shut and now == F and then == G:
                return       # assigned to itself
            self.took = True
            if name == 'operator=':
                need(shut == ({F} if held else set()), 'close', 'the descriptor that was owned before is not closed')
            else:
                need(not shut, 'close', 'a descriptor is closed while it changes its owner')
            need(now == G, 'take', 'the descriptor of the other owner is not taken')
            need(neg(then) or neg(G), 'give', 'both owners have the descriptor: it is closed twice')
            return
        if ck in ('ctor', 'default'):
            p = [x for x in ps if x['n'] and (x.get('t') or '').replace('const ', '') == 'int']
            self.took = True
            if p:
                need(now == ('p', p[0]['n']), 'take', 'the descriptor is not the one that was handed over')
            elif not ps:
                need(neg(now), 'take', 'an owner of nothing has a descriptor')
            need(not shut, 'close', 'a descriptor is closed while its owner is made')
            return
        if name in ('get', 'fd'):
            need(val is not None and plain(models.strip(val)) == F and now == F and not shut, 'value', 'the descriptor told is not the one that is owned')
        elif name == 'release':
            need(val is not None and plain(models.strip(val)) == F and neg(now) and not shut, 'give', 'release() does not hand the descriptor over')
        elif name == 'close':
            need(shut == ({F} if held else set()) and neg(now), 'close', 'close() does not close the descriptor, or keeps it')
        elif name == 'reset':
            need(shut == ({F} if held else set()) and now == ('p', ps[0]['n']), 'take', 'reset() does not close the old descriptor and take the new one')
        elif name in ('is_valid', 'operator bool'):
            v = models.strip(val)
            t = eng.truth(st, v)
            if t is None:
                y, n = eng.assume(st.copy(), as_pred(v)), eng.assume(st.copy(), as_pred(v), False)
                need((y is None or eng.entails_le(y, scale(F, -1))) and (n is None or eng.entails_le(n, add(F, ONE))), 'value', '%s() does not tell whether there is a descriptor' % name)
            else:
                need(t is False and neg(F) or t is True and eng.entails_le(st, scale(F, -1)), 'value', '%s() does not tell whether there is a descriptor' % name)


def owners(prog):
    """the field that holds the descriptor, whatever it is called"""
    for cls, field in sorted(OWNERS.items()):
        c = prog.classes.get(cls)
        if c is None:
            raise CheckError('anchor vanished: class %s' % cls)
        if not any(x['n'] == field for x in c.get('fields', ())):
            ints = [x['n'] for x in c.get('fields', ()) if (x.get('t') or '').replace('const ', '') == 'int']
            if len(ints) != 1:
                raise CheckError('anchor vanished: the descriptor of %s' % cls)
            OWNERS[cls] = ints[0]


def check_owners(chk):
    owners(chk.prog)
    for cls, field in sorted(OWNERS.items()):
        c = chk.prog.classes[cls]
        kinds = set()
        for m in c['methods']:
            f, ck = chk.prog.functions.get(m['id']), m.get('ck')
            if ck in ('copy', 'copyassign'):
                chk.require('owner', 'copy|%s' % cls, c.get('file', '?'), c.get('line', 0), bool(m.get('deleted')), 'an owner of a descriptor can be copied: it is closed twice')
            if f is None or 'body' not in f or f.get('coro') or ck in ('copy', 'copyassign') or f.get('defaulted') or f.get('deleted') or m.get('acc') != 'public':
                continue
            for alias in ((False, True) if ck == 'moveassign' else (False,)):
                r = Own(cls, f, alias)
                r.ck = ck
                F = r.F()
                facts = {mk_le(sub(C(-1), F)): True}
                args = None
                if f['params'] and '&&' in (f['params'][0].get('t') or ''):
                    n = f['params'][0]['n']
                    args = [('&', ROOT)] if alias else [('&', ('*', ('p', n)))]
                    facts[mk_le(sub(C(-1), ('init', (('*', ('p', n)), field), 0)))] = True
                chk.run(r, f, 4000, this=('&', ROOT), args=args, facts=facts)
                kinds.add(ck or base_name(f['q']))
        if 'dtor' not in kinds:
            raise CheckError('%s does not close its descriptor' % cls)


# ------------------------------------------------------------------------------------------------ coroutines that own descriptors
HEAP = ('std::make_unique', 'std::make_shared')


class Flow(Sys):
    """who closes the descriptors a coroutine opens or is given"""
    label = 'flow'
    watch = ('leak', 'double')
    inlined = ()

    def __init__(self, prog, f, split):
        super().__init__()
        self.prog, self.f, self.split = prog, f, split

    def lent(self, eng, st, ins, fd):
        if fd[0] == 'p' and fd not in set(self.get(st, 'raw') or ()):
            self.need(eng, st, ins, False, 'double', 'a descriptor that is only lent is closed: its owner closes it again')

    def closed(self, eng, st, ins, fd):
        fd = plain(models.strip(fd))
        self.lent(eng, st, ins, fd)
        if fd[0] == 'init' and fd[1][-1] in OWNERS.values():
            self.put(st, shut=tuple(sorted(set(self.get(st, 'shut') or ()) | {fd}, key=repr)))
        self.need(eng, st, ins, fd not in set(self.get(st, 'given') or ()), 'double', 'a descriptor is closed after it was handed over: its new owner closes it again')
        super().closed(eng, st, ins, fd)

    def on_exit(self, eng, st, ins, how, val):
        for fd in self.get(st, 'shut') or ():
            self.need(eng, st, ins, plain(models.strip(eng.load(st, fd[1], 'int'))) != fd, 'double', 'a descriptor is closed that its owner closes again')
        super().on_exit(eng, st, ins, how, val)

    def on_coro_call(self, eng, st, ins, f, obj, args):
        # owners that are handed to a coroutine
        for x, p in zip(args, f['params']):
            cls = p['t'].replace('const ', '').strip()
            for loc in ([(OWNERS[cls],)] if cls in OWNERS else self.members(eng.prog, cls)):
                d = plain(models.strip(eng.load(st, x[1:] + loc, 'int') if x[0] == '&' else eng.project(x, loc[0])))
                self.need(eng, st, ins, d not in set(self.get(st, 'gone') or ()), 'double', 'a closed descriptor is handed over')
                if d in set(self.get(st, 'raw') or ()):
                    self.give(st, d)
                    self.put(st, raw=tuple(sorted(set(self.get(st, 'raw')) - {d}, key=repr)) or None)
                    if x[0] == '&':
                        eng.store(st, x[1:] + loc, C(-1))
        return None

    def give(self, st, fd):
        self.put(st, given=tuple(sorted(set(self.get(st, 'given') or ()) | {fd}, key=repr)))

    def on_await(self, eng, st, ins, v):
        r = super().on_await(eng, st, ins, v)
        if r is not None or v[0] != 'task':
            return r
        f = eng.prog.functions.get(v[2])
        if f is None or 'body' not in f:
            return None
        if not touches(eng.prog, f) or f['id'] in self.split:
            s = st.copy()
            return [(st, ('ok', eng.sym(st, 'done', ins, 'int'))), (s, ('err', eng.sym(s, 'failed', ins, 'int')))] if 'expected' in (f.get('rt') or '') or 'Result' in (f.get('rt') or '') else [(st, eng.sym(st, 'done', ins, 'int'))]
        return None

    def more(self, eng, st, ins, fn, obj, args, q, b):
        f = eng.prog.functions.get(fn.get('id'))
        if f is not None and 'body' in f and not f.get('coro') and q not in self.inlined and not touches(eng.prog, f) and ('expected' in (f.get('rt') or '') or 'Result' in (f.get('rt') or '')) and q.split('::')[0] in ('kio', 'bitcask'):
            s = st.copy()
            return [(st, ('ok', eng.sym(st, b, ins))), (s, ('err', eng.sym(s, b, ins, 'int')))]
        raw = set(self.get(st, 'raw') or ())
        if raw and obj is not None and (b in ('operator=', 'emplace', 'emplace_back', 'push_back', 'insert', 'try_emplace', 'insert_or_assign') and (obj[0] != '&' or obj[1][0] != 'v')):
            # an object that owns a descriptor is moved to where it is kept
            for x, t in zip(args, fn.get('pt') or ()):
                cls = t.replace('const ', '').replace('&', '').strip()
                for loc in ([(OWNERS[cls],)] if cls in OWNERS else self.members(eng.prog, cls)):
                    d = plain(models.strip(eng.load(st, x[1:] + loc, 'int') if x[0] == '&' else eng.project(x, loc[0])))
                    if d in raw:
                        self.give(st, d)
                        self.put(st, raw=tuple(sorted(set(self.get(st, 'raw')) - {d}, key=repr)) or None)
                        if x[0] == '&':
                            eng.store(st, x[1:] + loc, C(-1))
        if q in HEAP or q == 'std::expected::expected':
            for x in args:
                v = plain(models.strip(eng.load(st, eng.loc_of(x)) if x[0] == '&' else x))
                if v in raw and (q in HEAP or any(o in (fn.get('cls') or '') + ' ' + (ins.x.get('t') or '') for o in OWNERS)):
                    self.give(st, v)
        return None

    def on_store(self, eng, st, ins, loc, v):
        cls = (ins.x.get('rct') or '').replace('const ', '').replace('&', '').strip()
        if cls and len(st.frames) == 1 and v[0] == '&' and v[1][0] == 'v':
            # the object returned is moved out: what it owned goes with it
            raw = set(self.get(st, 'raw') or ())
            for loc in ([(OWNERS[cls],)] if cls in OWNERS else self.members(eng.prog, cls)):
                at = v[1:] + loc
                d = plain(models.strip(eng.load(st, at, 'int')))
                if d in raw:
                    self.give(st, d)
                    self.put(st, raw=tuple(sorted(set(self.get(st, 'raw')) - {d}, key=repr)) or None)
                    eng.store(st, at, C(-1))
        return None


def hands(f):
    """the function hands a descriptor or an owner to its caller"""
    t = f.get('rt') or ''
    return bool(re.search(r'\bint\b', t)) or any(o in t for o in OWNERS)


def touches(prog, f, _memo={}):
    """f opens, closes or owns descriptors (through its calls)"""
    memo = prog.__dict__.setdefault('_touches', {})
    if f['id'] in memo:
        return memo[f['id']]
    memo[f['id']] = False
    out = False
    for ref, l, n in ir.calls_of(f):
        q = qn(ref['q'])
        b = base_name(ref['q'])
        if q in MAKERS or q == 'close' or q.startswith(W) and (b in WAIT_FD or b == 'async_close') or any(q.startswith(o + '::') and b not in ('get', 'fd', 'is_valid') for o in OWNERS):
            out = True
            break
        g = prog.functions.get(ref['id'])
        if g is not None and 'body' in g and q.split('::')[0] in ('kio', 'bitcask') and not q.startswith(W) and not q.startswith('kio::alog') and touches(prog, g):
            out = True
            break
    memo[f['id']] = out
    return out


def check_flow(chk):
    prog = chk.prog
    todo = []
    for f in prog.functions.values():
        q = qn(f['q'])
        if 'body' not in f or f.get('lambda') or q.split('::')[0] not in ('kio', 'bitcask') or q.startswith(W) or q.startswith('kio::io::detail::'):
            continue
        if any(q.startswith(o + '::') for o in OWNERS) or not touches(prog, f) or not f.get('coro'):
            continue
        todo.append(f)
    done, ids = set(), {f['id']: f for f in todo}
    split = {f['id'] for f in todo if not hands(f)}

    def visit(f):
        if f['id'] in done:
            return
        done.add(f['id'])
        for ref, l, n in ir.calls_of(f):
            if ref['id'] in ids:
                visit(ids[ref['id']])
        r = Flow(prog, f, split)
        chk.run(r, f, 40000, this=THIS)
        if not r.carried:
            split.add(f['id'])      # what it hands out is only lent

    for f in sorted(todo, key=lambda f: f['q']):
        visit(f)
    if len(done) < 10:
        raise CheckError('the coroutines that own descriptors are gone')


def check_wrappers(chk):
    """objects with an owner inside take it from the object they are moved from, and from the descriptor or owner they are made of"""
    base = Sys()
    n = 0
    for cls, c in sorted(chk.prog.classes.items()):
        if cls in OWNERS or cls.split('::')[0] not in ('kio', 'bitcask'):
            continue
        ms = base.members(chk.prog, cls)
        if not ms:
            continue
        for m in c['methods']:
            f, ck = chk.prog.functions.get(m['id']), m.get('ck')
            if f is None or 'body' not in f or f.get('defaulted') or f.get('deleted') or ck not in ('ctor', 'move', 'moveassign'):
                continue
            src = [i for i, x in enumerate(f['params']) if (x.get('t') or '').replace('const ', '') == 'int' and 'fd' in x['n'].lower() or (x.get('t') or '') in OWNERS]
            if ck == 'ctor' and (len(src) != 1 or len(ms) != 1):
                continue
            n += 1
            chk.run(Wrap(ms, f, ck, src), f, 4000, this=('&', ROOT), facts=Wrap.facts(ms, f, ck, src))
    if not n:
        raise CheckError('no class with an owner inside')


class Wrap(Sys):
    label = 'wrapper'
    watch = ('take', 'close')

    def __init__(self, ms, f, ck, src):
        super().__init__()
        self.ms, self.f, self.ck, self.src = ms, f, ck, src

    @staticmethod
    def other(f, ck, src, m):
        p = f['params'][src[0] if ck == 'ctor' else 0]
        if ck == 'ctor':
            t = p['t']
            return ('p', p['n']) if t not in OWNERS else ('fld', ('p', p['n']), OWNERS[t])
        return ('init', (('*', ('p', p['n'])),) + m, 0)

    @classmethod
    def facts(cls, ms, f, ck, src):
        return {mk_le(scale(cls.other(f, ck, src, m), -1)): True for m in ms}

    def closed(self, eng, st, ins, fd):
        fd = plain(models.strip(fd))
        for m in self.ms:
            self.need(eng, st, ins, fd != self.other(self.f, self.ck, self.src, m), 'close', 'the descriptor is closed while it changes its owner')

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        for m in self.ms:
            G = self.other(self.f, self.ck, self.src, m)
            now = plain(models.strip(eng.load(st, (ROOT,) + m, 'int')))
            self.need(eng, st, ins, now == G or repr(G) in repr(now), 'take', 'the descriptor that was handed over is not owned')
            if self.ck != 'ctor':
                self.need(eng, st, ins, plain(models.strip(eng.load(st, G[1], 'int'))) != G, 'take', 'both objects own the descriptor: it is closed twice')
