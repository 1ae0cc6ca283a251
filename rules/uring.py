"""io_uring operations: what is submitted, what is answered (C21), exact transfers (C22)."""
import re
from sa.engine import BITS
from .common import *
from .chrono import chrono_call, split_of

THIS = ('p', 'this')
ROOT = ('*', THIS)
W = 'kio::io::Worker::'
WA = 'kio::io::internal::WorkerAccess::'
SQE = ('&', ('glob', '#sqe'))
ID = ('app', 'op id')
PIPE = (('app', 'pipe', C(0)), ('app', 'pipe', C(1)))
EAGAIN = C(11)
EOF_ERR = C(2006)

# arguments of the prepare functions after the entry
PREP = {
    'accept': ('fd', 'addr', 'addrlen', 'flags'), 'read': ('fd', 'buf', 'len', 'off'), 'write': ('fd', 'buf', 'len', 'off'),
    'readv': ('fd', 'iov', 'n', 'off'), 'writev': ('fd', 'iov', 'n', 'off'), 'readv2': ('fd', 'iov', 'n', 'off', 'flags'),
    'writev2': ('fd', 'iov', 'n', 'off', 'flags'), 'connect': ('fd', 'addr', 'addrlen'), 'openat': ('dirfd', 'path', 'flags', 'mode'),
    'fallocate': ('fd', 'mode', 'off', 'len'), 'poll_add': ('fd', 'mask'), 'splice': ('in', 'inoff', 'out', 'outoff', 'len', 'flags'),
    'sendmsg': ('fd', 'msg', 'flags'), 'close': ('fd',), 'fsync': ('fd', 'flags'), 'unlinkat': ('dirfd', 'path', 'flags'),
    'timeout': ('ts', 'count', 'flags'), 'ftruncate': ('fd', 'len'),
}


def ghost(n):
    return (('glob', '#' + n),)


def plain(v, bits=32):
    """the value without conversions that keep the bits the kernel reads"""
    while len(v) == 3 and (v[0] == 'cast' or v[0] == 'trunc' and BITS.get(v[1], 0) >= bits):
        v = v[2]
    return v


WIDE = ('off', 'inoff', 'outoff', 'len')


class Op(Num):
    """one coroutine of Worker that submits operations to its ring and waits for them"""
    label = 'uring'
    partial = False
    heap_volatile = False
    max_states = 200
    split_min = True
    max_head = 60

    def __init__(self, spec=None):
        self.spec = spec
        self.ops = 0
        self.oks = 0

    def get(self, st, k, d=None):
        return dict(st.auto).get(k, d)

    def put(self, st, **kw):
        d = dict(st.auto)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        st.auto = tuple(sorted(d.items(), key=repr))

    def may_throw(self, eng, st, ins, fn):
        return qn(fn.get('q', '')) == W + 'get_op_id'

    def g(self, eng, st, n):
        return eng.load(st, ghost(n), 'unsigned long')

    def bump(self, eng, st, n, by):
        eng.store(st, ghost(n), add(self.g(eng, st, n), by))

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        r = chrono_call(eng, st, ins, fn, obj, args)
        if r is not None:
            return r
        if q == W + 'get_op_id':
            self.need(eng, st, ins, obj in (THIS, ('&', ROOT)), 'worker', 'the operation is registered with another worker')
            self.need(eng, st, ins, not self.get(st, 'id'), 'op id', 'a second op id is taken for one operation')
            self.put(st, id='taken')
            return [(st, ID)]
        if q == W + 'release_op_id':
            self.need(eng, st, ins, self.get(st, 'id') and models.strip(args[0]) == ID and not self.get(st, 'sub'), 'op id', 'an op id is released that is not held, or whose operation is under way')
            self.put(st, id=None, slot=None)
            return [(st, ('unk', 'void', 0))]
        if q == W + 'init_op_slot':
            self.need(eng, st, ins, self.get(st, 'id') and models.strip(args[0]) == ID, 'slot', 'the slot of another operation is initialised')
            h = models.strip(args[1])
            if h[0] == '&':
                h = eng.load(st, eng.loc_of(h))
            self.put(st, slot=h)
            return [(st, ('unk', 'void', 0))]
        if q == W + 'get_op_result':
            return self.result(eng, st, ins, args)
        if q == W + 'set_op_result' or q == W + 'resume_coro_by_id':
            self.need(eng, st, ins, False, 'result', 'an operation writes the result slot itself')
            return [(st, ('unk', 'void', 0))]
        if q == 'io_uring_get_sqe':
            self.need(eng, st, ins, args[0] == ('&', ROOT, 'ring_'), 'worker', 'the entry is taken from another ring')
            self.need(eng, st, ins, not self.get(st, 'sqe'), 'entry', 'a submission entry is taken and left unprepared')
            s = st.copy()
            self.put(s, full=1)
            self.put(st, sqe='raw', data=None, full=None)
            return [(st, SQE), (s, ZERO)]
        if q == 'io_uring_sqe_set_data64' or q == 'io_uring_sqe_set_data':
            self.need(eng, st, ins, args[0] == SQE and models.strip(args[1]) == ID and self.get(st, 'id'), 'data', 'the entry does not carry the op id of its operation')
            self.put(st, data=1)
            return [(st, ('unk', 'void', 0))]
        if q == 'io_uring_sqe_set_flags':
            self.need(eng, st, ins, models.strip(args[1]) in (C(0), C(16)), 'flags', 'the entry has flags that change how its operation runs or completes')
            return [(st, ('unk', 'void', 0))]
        if q.startswith('io_uring_prep_'):
            n = q[len('io_uring_prep_'):]
            self.need(eng, st, ins, args[0] == SQE and self.get(st, 'sqe'), 'entry', 'an entry is prepared that was not taken for this operation')
            if n not in PREP:
                raise CheckError('io_uring_prep_%s is not modelled' % n)
            a = tuple(zip(PREP[n], (models.val(eng, st, fn, args, i) for i in range(1, len(args)))))
            if n == 'timeout':
                v = dict(a)['ts']
                own = v[0] == '&' and isinstance(v[1], tuple) and v[1][0] == 'v' and v[1][1] == st.frames[0].ctx
                self.need(eng, st, ins, own, 'lifetime', 'the time of the timer does not live in the frame of the coroutine that waits for it')
                if own:
                    l = eng.loc_of(v)
                    d = split_of(eng.load(st, l + ('tv_sec',), 'long'), eng.load(st, l + ('tv_nsec',), 'long'))
                    a = a + (('time', d if d is not None else ('app', 'unknown')),)
            self.put(st, sqe='prep', op=(n, a))
            return [(st, ('unk', 'void', 0))]
        if q in ('io_uring_submit', 'io_uring_submit_and_wait', 'io_uring_submit_and_get_events'):
            return [(st, eng.sym(st, 'submit', ins, 'int'))]
        if q.startswith('io_uring_'):
            raise CheckError('%s is not modelled' % q)
        return self.other(eng, st, ins, fn, q, obj, args)

    def other(self, eng, st, ins, fn, q, obj, args):
        return None

    def on_suspend(self, eng, st, ins, aw):
        self.ops += 1
        ok = self.need(eng, st, ins, self.get(st, 'id') and self.get(st, 'sqe') == 'prep' and self.get(st, 'data'), 'submit',
                       'the coroutine suspends without an operation that is prepared and carries its op id')
        h = self.get(st, 'slot')
        self.need(eng, st, ins, h is not None and h[0] == 'handle' and h[1] == st.top.ctx, 'slot', 'the completion of the operation does not resume the coroutine that waits for it')
        if ok:
            self.submitted(eng, st, ins, *self.get(st, 'op'))
        self.put(st, sub=1, sqe=None, data=None)
        return [st]

    def result(self, eng, st, ins, args):
        ok = self.need(eng, st, ins, self.get(st, 'sub') and models.strip(args[0]) == ID, 'result', 'a result is read that is not the one of the completed operation')
        if not ok:
            return [(st, eng.sym(st, 'res', ins, 'int'))]
        r = eng.sym(st, 'res', ins, 'int')
        op, a = self.get(st, 'op')
        a = dict(a)
        st = eng.assume(st, mk_le(sub(C(-4095), r))) or st
        bad = eng.assume(st, mk_le(add(r, ONE)))
        st = eng.assume(st, mk_le(scale(r, -1)))
        st = eng.assume(st, mk_le(sub(r, C(2 ** 31 - 1)))) or st
        if 'len' in a and op not in ('fallocate', 'ftruncate'):
            st = eng.assume(st, mk_le(sub(r, a['len']))) if eng.numok(a['len']) else st
        out = []
        for s in (bad, st):
            if s is None:
                continue
            self.put(s, id=None, slot=None, sub=None, op=None)
            if s is not bad:
                self.moved(eng, s, ins, op, a, r)
            if s is bad or not self.partial:
                self.put(s, last=(op, r))
                out.append((s, r))
                continue
            # a part of the transfer: only an empty one is the end
            e = eng.assume(s.copy(), mk_eq(r))
            if e is not None:
                self.put(e, last=(op, r), way=None)
                out.append((e, r))
            s = eng.assume(s, mk_le(sub(ONE, r)))
            if s is not None:
                self.put(s, last=None, way=None)
                out.append((s, r))
        return out

    def moved(self, eng, st, ins, op, a, r):
        self.put(st, done=(self.get(st, 'done') or 0) + 1)

    # ---- the end
    def error_value(self, eng, st, val):
        v = val[1]
        if v[0] == '&':
            l = eng.loc_of(v)
            return eng.load(st, l + ('value',)), eng.load(st, l + ('category',))
        return eng.project(v, 'value'), eng.project(v, 'category')

    def ok_value(self, eng, st, val):
        v = val[1]
        if v[0] == '&':
            v = eng.load(st, eng.loc_of(v))
        return models.strip(v)

    def on_exit(self, eng, st, ins, how, val):
        self.need(eng, st, ins, self.get(st, 'sqe') is None, 'entry', 'a submission entry was taken and is submitted unprepared: it repeats the operation that used it last')
        if how == 'exc':
            self.need(eng, st, ins, not self.get(st, 'id'), 'op id', 'an op id is lost')
            return
        self.need(eng, st, ins, not self.get(st, 'id'), 'op id', 'an op id is lost: it is neither released nor under way')
        v = models.strip(val)
        if v[0] == 'ok':
            self.oks += 1
            self.on_ok(eng, st, ins, v)
        elif v[0] == 'err':
            self.on_err(eng, st, ins, v)
        else:
            raise CheckError('result not understood: %r' % (v,))

    def errno_ok(self, eng, st, ins, v, want, why):
        x, c = self.error_value(eng, st, v)
        e = eq(eng, st, x, want)
        self.need(eng, st, ins, e, 'error', why)
        self.need(eng, st, ins, c == ('app', 'kio::CategoryFromErrno', x) or not e, 'category', 'the category of the error is not the one of its value')

    def on_err(self, eng, st, ins, v):
        last = self.get(st, 'last')
        if self.get(st, 'full'):
            return self.errno_ok(eng, st, ins, v, EAGAIN, 'a full submission queue is reported as something other than EAGAIN')
        if last is None:
            return self.other_err(eng, st, ins, v)
        if eng.entails_le(st, add(last[1], ONE)):
            return self.errno_ok(eng, st, ins, v, scale(last[1], -1), 'the error is not the one the kernel answered')
        self.short(eng, st, ins, v, last)

    def other_err(self, eng, st, ins, v):
        self.need(eng, st, ins, False, 'error', 'an error is reported although nothing was submitted')

    def short(self, eng, st, ins, v, last):
        self.need(eng, st, ins, False, 'error', 'a successful operation is reported as an error')


def params(f):
    return [('p', p['n']) for p in f['params']]


def P(i, part=None):
    return lambda eng, st, ps: eng.project(ps[i], part) if part else ps[i]


def K(v):
    return lambda eng, st, ps: C(v)


def LEN(i):
    return ('length', i)


ANY = object()
M1 = U64

# method -> (operation, what its fields must be, the value of success, the counters)
SPECS = {
    'async_accept': ('accept', dict(fd=P(0), addr=P(1), addrlen=P(2), flags=K(0)), 'r', {'connections_accepted_total': 1}),
    'async_read': ('read', dict(fd=P(0), buf=P(1, '#data'), len=LEN(1), off=K(M1)), 'r', {'bytes_read_total': 'r', 'read_ops_total': 1}),
    'async_read_at': ('read', dict(fd=P(0), buf=P(1, '#data'), len=LEN(1), off=P(2)), 'r', {'bytes_read_total': 'r', 'read_ops_total': 1}),
    'async_write': ('write', dict(fd=P(0), buf=P(1, '#data'), len=LEN(1), off=K(M1)), 'r', {'bytes_written_total': 'r', 'write_ops_total': 1}),
    'async_write_at': ('write', dict(fd=P(0), buf=P(1, '#data'), len=LEN(1), off=P(2)), 'r', {'bytes_written_total': 'r', 'write_ops_total': 1}),
    'async_readv': ('readv', dict(fd=P(0), iov=P(1), n=P(2), off=P(3)), 'r', {'bytes_read_total': 'r', 'read_ops_total': 1}),
    'async_writev': ('writev', dict(fd=P(0), iov=P(1), n=P(2), off=P(3)), 'r', {'bytes_written_total': 'r', 'write_ops_total': 1}),
    'async_connect': ('connect', dict(fd=P(0), addr=P(1), addrlen=P(2)), None, {'connect_ops_total': 1}),
    'async_openat': ('openat', dict(dirfd=K(-100), path=P(0, '#data'), flags=P(1), mode=P(2)), 'r', {'open_ops_total': 1}),
    'async_fallocate': ('fallocate', dict(fd=P(0), mode=P(1), off=K(0), len=P(2)), None, {}),
    'async_poll': ('poll_add', dict(fd=P(0), mask=P(1)), None, {}),
    'async_sendmsg': ('sendmsg', dict(fd=P(0), msg=P(1), flags=P(2)), None, {'bytes_written_total': 'r', 'write_ops_total': 1}),
    'async_close': ('close', dict(fd=P(0)), None, {}),
    'async_fsync': ('fsync', dict(fd=P(0), flags=K(0)), None, {}),
    'async_fdatasync': ('fsync', dict(fd=P(0), flags=K(1)), None, {}),
    'async_unlink_at': ('unlinkat', dict(dirfd=P(0), path=P(1, '#data'), flags=P(2)), None, {}),
    'async_sleep': ('timeout', dict(time=P(0), count=K(0), flags=K(0)), None, {}),
    'async_ftruncate': ('ftruncate', dict(fd=P(0), len=P(1)), None, {}),
}
SAME = {'readv2': 'readv', 'writev2': 'writev'}


class Single(Op):
    """one operation: its fields are the arguments, its answer is the result"""

    def __init__(self, f, name):
        super().__init__(SPECS[name])
        self.f, self.name = f, name
        self.ps = params(f)

    def submitted(self, eng, st, ins, op, a):
        want, fields = self.spec[0], self.spec[1]
        self.need(eng, st, ins, not self.get(st, 'done'), 'once', 'the operation is submitted a second time')
        if not self.need(eng, st, ins, SAME.get(op, op) == want, 'operation', '%s submits the operation %s' % (self.name, op)):
            return
        a = dict(a)
        for k, w in fields.items():
            got = a.get(k)
            if isinstance(w, tuple) and w[0] == 'length':
                n = eng.project(self.ps[w[1]], '#size')
                ok = got is not None and le(eng, st, got, n) and eng.numok(got)
                self.need(eng, st, ins, ok, k, 'the length submitted may exceed the buffer')
                t = eng.assume(st, mk_le(sub(ONE, n)))
                self.need(eng, st, ins, not ok or t is None or le(eng, t, ONE, got), k, 'the length submitted may be 0 although the buffer is not empty')
                big = eng.assume(st, mk_le(sub(n, C(2 ** 31 - 1))))
                self.need(eng, st, ins, not ok or big is None or eq(eng, big, got, n), k, 'the length submitted is not the length of the buffer')
                continue
            w = w(eng, st, self.ps)
            g = plain(models.strip(got), 64 if k in WIDE else 32) if got is not None else None
            same = g is not None and (g == w or eq(eng, st, g, w) or (w == C(U64) and g == C(-1)))
            self.need(eng, st, ins, same, k, 'the %s of the operation is not the one given' % k)

    def on_ok(self, eng, st, ins, v):
        last = self.get(st, 'last')
        if not self.need(eng, st, ins, last is not None, 'success', 'success is reported although nothing was submitted'):
            return
        r = last[1]
        if self.spec[0] == 'timeout':
            self.need(eng, st, ins, le(eng, st, ZERO, r) or eq(eng, st, r, C(-62)), 'success', 'a timer that failed is reported as expired')
        else:
            self.need(eng, st, ins, le(eng, st, ZERO, r), 'success', 'a failed operation is reported as a success')
        if self.spec[2] == 'r':
            self.need(eng, st, ins, eq(eng, st, self.ok_value(eng, st, v), r), 'value', 'the value returned is not the answer of the kernel')
        self.counters(eng, st, ins, r)

    def on_err(self, eng, st, ins, v):
        super().on_err(eng, st, ins, v)
        self.counters(eng, st, ins, None)
        last = self.get(st, 'last')
        if self.spec[0] == 'timeout' and last is not None:
            self.need(eng, st, ins, eng.truth(st, mk_eq(add(last[1], C(62)))) is False, 'error', 'a timer that expired is reported as an error')

    def counters(self, eng, st, ins, r):
        want = dict(self.spec[3]) if r is not None else {}
        for n in stat_fields(self.chk):
            loc = (ROOT, 'stats_', n)
            w = want.get(n, 0)
            w = r if w == 'r' else C(w)
            x = eng.load(st, loc, 'unsigned long')
            self.need(eng, st, ins, eq(eng, st, sub(x, ('init', loc, 0)), w), 'counter ' + n,
                      'the counter %s %s' % (n, 'does not count the operation' if r is not None and n in self.spec[3] else 'counts what it should not'))


def stat_fields(chk):
    return [f['n'] for f in chk.prog.cls('kio::io::WorkerStats')['fields'] if f['t'] == 'unsigned long']


def sane(chk, extra=()):
    """counters and offsets are far from their limits"""
    out = {}
    for n in stat_fields(chk):
        out[mk_le(sub(('init', (ROOT, 'stats_', n), 0), C(2 ** 62)))] = True
    for v, hi in extra:
        out[mk_le(sub(v, C(hi)))] = True
    return out


def coros(chk, name):
    return [f for f in chk.prog.functions.values() if 'body' in f and f.get('coro') and qn(f['q']) == W + name and not f.get('lambda')]


def unsigned_stats(chk):
    def setup(eng, st):
        for n in stat_fields(chk):
            eng.unsigned.add(('init', (ROOT, 'stats_', n), 0))
    return setup


def check_operations(chk):
    seen = set()
    for f in sorted(chk.prog.functions.values(), key=lambda f: f['id']):
        q = qn(f['q'])
        if 'body' not in f or not q.startswith(W + 'async_') or f.get('lambda') or '(' in q:
            continue
        n = q[len(W):]
        if not f.get('coro'):
            continue
        seen.add(n)
        if n in SPECS:
            r = Single(f, n)
            chk.run(r, f, this=THIS, facts=sane(chk), setup=unsigned_stats(chk))
            if not r.oks or not r.ops:
                raise CheckError('%s: no operation or no success seen' % n)
            for p in f['params']:
                if 'path' in p['t'] or 'span<' in p['t'] or 'duration' in p['t']:
                    chk.require('uring', '%s|%s by value' % (q, p['n']), f['file'], f['line'], not p['t'].rstrip().endswith('&'),
                                'the argument %s is borrowed: it can be gone when the operation runs' % p['n'])
    for n in SPECS:
        if n not in seen:
            raise CheckError('anchor vanished: %s' % n)
    check_forward(chk)


class Forward(R):
    label = 'uring'
    partial = False
    heap_volatile = False

    def __init__(self):
        self.n = 0

    def on_exit(self, eng, st, ins, how, val):
        if how != 'ret':
            return
        v = models.strip(val)
        while v[0] == 'rec' and v[1][0] == 'task':
            v = v[1]
        ok = v[0] == 'task' and v[3] in (THIS, ('&', ROOT)) and len(v[4]) == 3
        a = v[4] if ok else None
        ok = ok and this_field(eng, st, a[0], 'socket') and a[1] == ('&', ('*', ('p', 'addr')), 'addr') and a[2] == ('&', ('*', ('p', 'addr')), 'addrlen')
        self.need(eng, st, ins, ok, 'forward', 'accept does not pass on the socket, the address and its length')
        self.n += 1


def this_field(eng, st, v, p):
    v = models.strip(v)
    return v[0] == 'init' and v[1][0] == ('*', ('p', p))


def check_forward(chk):
    fs = [f for f in chk.prog.functions.values() if qn(f['q']) == W + 'async_accept' and 'body' in f and not f.get('coro') and len(f['params']) == 2]
    for f in fs:
        r = Forward()
        chk.run(r, f, this=THIS, args=[('p', 'socket'), ('p', 'addr')])


# ---------------------------------------------------------------- exact transfers
EXACT = {'async_read_exact': ('read', False), 'async_read_exact_at': ('read', True), 'async_write_exact': ('write', False), 'async_write_exact_at': ('write', True)}


class Exact(Op):
    """the whole buffer, in order, without a gap"""
    label = 'exact'
    partial = True
    nat = (ghost('done'),)

    def __init__(self, f, name):
        super().__init__(EXACT[name])
        self.f, self.name = f, name
        self.ps = params(f)

    def submitted(self, eng, st, ins, op, a):
        a = dict(a)
        d = self.g(eng, st, 'done')
        if not self.need(eng, st, ins, op == self.spec[0], 'operation', '%s submits the operation %s' % (self.name, op)):
            return
        buf, n = eng.project(self.ps[1], '#data'), eng.project(self.ps[1], '#size')
        self.need(eng, st, ins, plain(a['fd']) == self.ps[0], 'fd', 'the transfer uses another descriptor')
        self.need(eng, st, ins, eq(eng, st, a['buf'], add(buf, d)), 'position', 'the next part does not begin where the last one ended')
        self.need(eng, st, ins, le(eng, st, add(a['len'], d), n) and eng.numok(a['len']), 'bounds', 'the next part may reach beyond the buffer')
        if self.spec[1]:
            self.need(eng, st, ins, eq(eng, st, a['off'], add(self.ps[2], d)), 'offset', 'the offset in the file does not go on with the buffer')
        else:
            self.need(eng, st, ins, plain(a['off'], 64) in (C(U64), C(-1)), 'offset', 'a stream is transferred at an offset')
        # progress: something is asked for, so that 0 means the end
        self.need(eng, st, ins, le(eng, st, ONE, a['len']), 'progress', 'an empty part may be transferred: its 0 looks like the end')

    def moved(self, eng, st, ins, op, a, r):
        self.bump(eng, st, 'done', r)

    def on_ok(self, eng, st, ins, v):
        n = eng.project(self.ps[1], '#size')
        self.need(eng, st, ins, eq(eng, st, self.g(eng, st, 'done'), n), 'complete', 'success is reported although the buffer was not transferred completely')

    def short(self, eng, st, ins, v, last):
        self.need(eng, st, ins, eng.truth(st, mk_eq(last[1])) is True, 'short', 'a short transfer is reported as an error instead of being continued')
        x, c = self.error_value(eng, st, v)
        self.need(eng, st, ins, models.strip(x) == EOF_ERR, 'eof', 'the end of the file is not reported as kIoEof')


def check_exact(chk):
    for n in EXACT:
        fs = coros(chk, n)
        if not fs:
            raise CheckError('anchor vanished: %s' % n)
        for f in fs:
            ps = params(f)
            r = Exact(f, n)

            def setup(eng, st):
                unsigned_stats(chk)(eng, st)
                eng.store(st, ghost('done'), ZERO)
                sz, dt = eng.project(ps[1], '#size'), eng.project(ps[1], '#data')
                eng.unsigned.add(sz)
                eng.unsigned.add(dt)
                st.facts = {**st.facts, mk_le(sub(sz, C(PTRMAX))): True, mk_le(sub(dt, C(2 ** 62))): True}
            chk.run(r, f, this=THIS, facts=sane(chk, [(ps[2], 2 ** 63 - 1 - PTRMAX)] if EXACT[n][1] else []), setup=setup)
            if not r.oks or not r.ops:
                raise CheckError('%s: no operation or no success seen' % n)
    check_sendfile(chk)


class Sendfile(Op):
    """count bytes from the file through a pipe to the other side: nothing lost, nothing left in the pipe, pipe closed"""
    label = 'sendfile'
    partial = True
    nat = (ghost('taken'), ghost('held'))    # each is proved to stay at least 0 ('bounds')

    def other(self, eng, st, ins, fn, q, obj, args):
        if q in ('pipe', 'pipe2'):
            s = st.copy()
            loc = eng.loc_of(args[0])
            for i in (0, 1):
                eng.store(st, loc + (('[]', C(i)),), PIPE[i])
            self.need(eng, st, ins, not self.get(st, 'pipe'), 'pipe', 'a second pipe is created')
            self.put(st, pipe=(0, 1))
            self.put(s, nopipe=1)
            eng.store(s, (('glob', 'errno'),), ('app', 'errno', ('s', 'pipe')))
            return [(st, ZERO), (s, C(-1))]
        if q == 'close':
            v = models.strip(args[0])
            self.need(eng, st, ins, v in PIPE, 'close', 'sendfile closes a descriptor that is not its own')
            if v in PIPE:
                i = PIPE.index(v)
                p = self.get(st, 'pipe') or ()
                self.need(eng, st, ins, i in p, 'close', 'an end of the pipe is closed twice')
                self.put(st, pipe=tuple(x for x in p if x != i))
            return [(st, ZERO)]
        if q == 'fcntl':
            return [(st, eng.sym(st, 'fcntl', ins, 'int'))]
        return None

    def on_cond(self, v):
        return v in PIPE

    def submitted(self, eng, st, ins, op, a):
        a = dict(a)
        if not self.need(eng, st, ins, op == 'splice', 'operation', 'sendfile submits the operation %s' % op):
            return
        out_fd, in_fd, off, count = self.ps
        held, taken = self.g(eng, st, 'held'), self.g(eng, st, 'taken')
        src, dst = plain(a['in']), plain(a['out'])
        self.need(eng, st, ins, len(self.get(st, 'pipe') or ()) == 2, 'pipe', 'the pipe is used after it was closed')
        if src == in_fd and dst == PIPE[1]:
            self.need(eng, st, ins, eq(eng, st, plain(a['inoff'], 64), add(off, taken)), 'position', 'the next part of the file does not begin where the last one ended')
            self.need(eng, st, ins, plain(a['outoff'], 64) in (C(-1), C(U64)), 'position', 'a pipe is written at an offset')
            self.need(eng, st, ins, eng.numok(a['len']) and le(eng, st, add(a['len'], taken), count), 'bounds', 'more may be taken from the file than was asked for')
            self.put(st, way='in')
        elif src == PIPE[0] and dst == out_fd:
            self.need(eng, st, ins, plain(a['inoff'], 64) in (C(-1), C(U64)) and plain(a['outoff'], 64) in (C(-1), C(U64)), 'position', 'a pipe or stream is used at an offset')
            self.need(eng, st, ins, eng.numok(a['len']) and le(eng, st, a['len'], held), 'bounds', 'more may be taken from the pipe than it holds')
            self.put(st, way='out')
        else:
            self.need(eng, st, ins, False, 'route', 'a splice does not go from the file to the pipe or from the pipe to the destination')
        self.need(eng, st, ins, le(eng, st, ONE, a['len']), 'progress', 'an empty part may be transferred: its 0 looks like the end')

    def moved(self, eng, st, ins, op, a, r):
        if self.get(st, 'way') == 'in':
            self.bump(eng, st, 'taken', r)
            self.bump(eng, st, 'held', r)
        else:
            eng.store(st, ghost('held'), sub(self.g(eng, st, 'held'), r))

    def on_exit(self, eng, st, ins, how, val):
        self.need(eng, st, ins, not self.get(st, 'pipe'), 'close', 'the pipe is not closed')
        super().on_exit(eng, st, ins, how, val)

    def on_ok(self, eng, st, ins, v):
        self.need(eng, st, ins, eq(eng, st, self.g(eng, st, 'taken'), self.ps[3]), 'complete', 'success is reported although not every byte was sent')
        self.need(eng, st, ins, eq(eng, st, self.g(eng, st, 'held'), ZERO), 'complete', 'bytes are left in the pipe')

    def other_err(self, eng, st, ins, v):
        ok = self.get(st, 'nopipe')
        if self.need(eng, st, ins, ok, 'error', 'an error is reported although nothing was submitted'):
            self.errno_ok(eng, st, ins, v, ('app', 'errno', ('s', 'pipe')), 'the error of pipe() is not the one reported')

    def short(self, eng, st, ins, v, last):
        self.need(eng, st, ins, eng.truth(st, mk_eq(last[1])) is True, 'short', 'a short transfer is reported as an error instead of being continued')
        x, c = self.error_value(eng, st, v)
        self.need(eng, st, ins, models.strip(x)[0] == 'c' and models.strip(x)[1] > 0, 'eof', 'the end of the file is not reported as an error')


def check_sendfile(chk):
    fs = coros(chk, 'async_sendfile')
    if not fs:
        raise CheckError('anchor vanished: async_sendfile')
    for f in fs:
        r = Sendfile()
        r.f, r.ps = f, params(f)

        def setup(eng, st):
            unsigned_stats(chk)(eng, st)
            for n in ('taken', 'held'):
                eng.store(st, ghost(n), ZERO)
            st.facts = {**st.facts, mk_le(sub(r.ps[3], C(PTRMAX))): True, mk_le(sub(r.ps[2], C(2 ** 62))): True, mk_le(scale(r.ps[2], -1)): True,
                        mk_le(scale(PIPE[0], -1)): True, mk_le(scale(PIPE[1], -1)): True}
        chk.run(r, f, this=THIS, facts=sane(chk), setup=setup)
        if not r.oks or not r.ops:
            raise CheckError('async_sendfile: no operation or no success seen')
