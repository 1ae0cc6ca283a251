"""Logger: delivery protocol (C13), message content and filtering (C14)."""
from .common import *

THIS = ('p', 'this')
ROOT = ('*', THIS)
LEVELS = 6          # Disabled, Trace, Debug, Info, Warn, Error
EFD_NONBLOCK = 0o4000
ERRNO = ('p', '#errno')


def fns(chk, q):
    return [f for f in chk.prog.functions.values() if qn(f['q']) == q and 'body' in f]


class Log(R):
    label = 'logger'
    heap_volatile = False
    fast = True
    numeric = True

    def ev(self, st, *e):
        st.auto = st.auto + (e,)

    def evs(self, st, k):
        return [e for e in st.auto if e[0] == k]

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if q == 'kio::MPSCQueue::try_push':
            e = self.push(eng, st, ins, obj, args)
            t = st.copy()
            self.ev(st, 'accepted')
            self.ev(t, 'rejected')
            return [(st, ONE), (t, ZERO)]
        if q == 'kio::MPSCQueue::try_pop':
            return self.pop(eng, st, ins, obj, args)
        if q in ('write', 'eventfd_write') and len(args) >= 2:
            v = args[1]
            if v[0] == '&':
                v = eng.load(st, eng.loc_of(v))
            self.ev(st, 'write', args[0], v, args[2] if len(args) > 2 else C(8))
            return [(st, eng.sym(st, 'write', ins, 'long'))]
        if q in ('read', 'eventfd_read') and args:
            s = eng.sym(st, 'read', ins, 'long')
            fail = eng.assume(st.copy(), mk_le(add(s, ONE)), True)
            good = eng.assume(st, mk_le(scale(s, -1)), True)
            if good is not None:
                self.waited(eng, good, ins, args[0])
            if fail is not None:
                e = eng.sym(fail, 'errno', ins, 'int')
                eng.store(fail, (('*', ERRNO),), e)
                self.failed(eng, fail, ins, e)
            return [(x, s) for x in (good, fail) if x is not None]
        if q == '__errno_location':
            return [(st, ERRNO)]
        if q == 'poll' or q == 'std::this_thread::sleep_for':
            self.waited(eng, st, ins, None)
            return [(st, ZERO)] if q != 'poll' else None
        if q == 'close':
            self.ev(st, 'close', args[0])
            return [(st, ZERO)]
        if q == 'eventfd':
            s = eng.sym(st, 'eventfd', ins, 'int')
            self.ev(st, 'eventfd', s, args[1])
            return [(st, s)]
        if q.startswith('std::jthread::') or q.startswith('std::thread::'):
            if b == 'joinable':
                return [(st, ONE)]
            self.thread(eng, st, ins, b, fn, args)
            return [(st, ('unk', 'void', 0))] if b in ('request_stop', 'join', 'detach') else None
        if q.startswith('std::stop_source::request_stop'):
            self.thread(eng, st, ins, 'request_stop', fn, args)
            return [(st, ONE)]
        if q == 'std::stop_token::stop_requested':
            t = st.copy()
            self.stopped(eng, t, ins)
            return [(t, ONE), (st, ZERO)]
        if q.startswith('std::atomic') and 'LogLevel' in (fn.get('cls') or '') and b in ('load', 'operator LogLevel', 'operator kio::LogLevel', 'operator type', 'operator'):
            return [(st, C(self.level))]
        if q == 'kio::get_thread_id':
            return [(st, ('app', 'thread_id'))]
        if q.startswith('std::source_location::'):
            return [(st, ('app', q.split('::')[-1], obj))]
        if q in ('std::basic_osyncstream::basic_osyncstream', 'strerror', 'std::endl') or (q.startswith('std::basic_ostream') or q == 'std::operator<<') and self.stderr(eng, st, obj, args):
            return [(st, obj if obj is not None else args[0] if args else ZERO)]
        if q == 'std::format_to_n':
            A, n = args[0], args[1]
            s = eng.sym(st, 'fmtres', ins, None)
            eng.info[s] = ('format_to_n', tuple(args[2:]))
            out, size = ('fld', s, 'out'), ('fld', s, 'size')
            r = []
            for small in (True, False):
                x = eng.assume(st.copy(), mk_le(sub(size, n)), small)
                x = x and eng.assume(x, mk_le(scale(size, -1)), True)
                x = x and eng.assume(x, mk_eq(sub(sub(out, eng.ptr(A)), size if small else n)), True)
                if x is not None:
                    self.ev(x, 'formatted', A, s)
                    r.append((x, s))
            return r
        c = copyop(eng, st, fn, args)
        if c:
            self.ev(st, 'copy', c[0], c[1], c[2])
            return [(st, args[0])]
        return self.more(eng, st, ins, fn, q, b, obj, args)

    level = 1

    def on_make(self, eng, st, ins, fn, s, vals):
        if len(vals) == 1 and 'unique_ptr<std::basic_string<' in (fn.get('rt') or ''):
            eng.store(st, (('*', s),), vals[0])

    def may_throw(self, eng, st, ins, fn):
        return qn(fn['q']) in ('std::format_to_n', 'std::format', 'std::vformat', 'std::format_to')

    def stderr(self, eng, st, obj, args):
        return True

    def push(self, eng, st, ins, obj, args):
        pass

    def pop(self, eng, st, ins, obj, args):
        return None

    def waited(self, eng, st, ins, fd):
        pass

    def stopped(self, eng, st, ins):
        pass

    def failed(self, eng, st, ins, err):
        pass

    def thread(self, eng, st, ins, what, fn, args):
        pass

    def more(self, eng, st, ins, fn, q, b, obj, args):
        return None


# ------------------------------------------------------------------------------------------------ producers
class Produce(Log):
    """one log call: pushed exactly once, the consumer is woken after the push"""
    label = 'delivery'

    def __init__(self, fds, want):
        self.fds, self.want = fds, want
        self.pushes = 0

    def push(self, eng, st, ins, obj, args):
        self.pushes += 1
        self.need(eng, st, ins, not self.evs(st, 'accepted'), 'pushed once', 'a message is queued twice')

    def isfd(self, eng, st, fd):
        return fd[0] == 'init' and fd[1][0] == ROOT and fd[1][1:] in self.fds

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc' or not self.want:
            return
        k = [i for i, e in enumerate(st.auto) if e[0] in ('accepted', 'rejected')]
        self.need(eng, st, ins, bool(k), 'queued', 'a message that passes the level filter is not put into the queue')
        if not k or st.auto[k[-1]][0] != 'accepted':
            return
        woken = [e for e in st.auto[k[-1]:] if e[0] == 'write' and self.isfd(eng, st, e[1]) and e[2][0] == 'c' and e[2][1] != 0 and e[3] == C(8)]
        nofd = any(eng.truth(st, mk_le(add(('init', (ROOT,) + f, 0), ONE))) is True for f in self.fds)
        self.need(eng, st, ins, bool(woken) or nofd, 'wake after push',
                  'a message is queued but the consumer thread is not woken after that (it stays unwritten until the next message)')


# ------------------------------------------------------------------------------------------------ consumer
class Consume(Log):
    """auto: ('need' | 'drained') state of the drain, pending message, lock depth"""
    label = 'delivery'

    def __init__(self, fds, thread):
        self.fds, self.is_thread = fds, thread
        self.pops = self.writes = self.waits = 0

    def setst(self, st, **kw):
        d = dict(st.auto[0][1]) if st.auto else {'drain': 'need', 'pending': None, 'lock': ()}
        d.update(kw)
        st.auto = (('st', tuple(sorted(d.items(), key=lambda x: x[0]))),)

    def get(self, st, k):
        d = dict(st.auto[0][1]) if st.auto else {'drain': 'need', 'pending': None, 'lock': ()}
        return d[k]

    def ev(self, st, *e):
        pass

    def waited(self, eng, st, ins, fd):
        self.waits += 1
        if fd is not None:
            self.need(eng, st, ins, fd[0] == 'init' and fd[1][1:] in self.fds, 'waits for producers', 'the consumer waits on another descriptor than the one producers signal')
        self.setst(st, drain='need')

    def stopped(self, eng, st, ins):
        self.setst(st, drain='need')

    def pop(self, eng, st, ins, obj, args):
        self.pops += 1
        self.need(eng, st, ins, self.get(st, 'pending') is None, 'written before the next', 'a message is taken from the queue and never written')
        self.need(eng, st, ins, bool(self.get(st, 'lock')), 'one consumer',
                  'the queue is popped without holding the lock that makes the consumer unique (two threads can pop at once)')
        self.need(eng, st, ins, obj is not None and obj[0] == '&' and obj[1] == ROOT, 'own queue', 'another queue is popped than the one producers fill')
        t = st.copy()
        e = args[0]
        self.setst(st, pending=e)
        eng.store(st, eng.loc_of(e), eng.sym(st, 'popped', ins, None))
        self.setst(t, drain='drained')
        return [(st, ONE), (t, ZERO)]

    def stderr(self, eng, st, obj, args):
        o = obj if obj is not None else args[0] if args else None
        return not (o is not None and 'output' in repr(o))

    def more(self, eng, st, ins, fn, q, b, obj, args):
        if q in ('std::scoped_lock::scoped_lock', 'std::lock_guard::lock_guard', 'std::unique_lock::unique_lock') and args and obj is not None:
            self.setst(st, lock=self.get(st, 'lock') + ((obj, args[0]),))
            return [(st, obj)]
        if q in ('std::mutex::lock',):
            self.setst(st, lock=self.get(st, 'lock') + ((obj, obj),))
            return [(st, ZERO)]
        if q in ('std::mutex::unlock', 'std::unique_lock::unlock'):
            self.setst(st, lock=tuple(x for x in self.get(st, 'lock') if x[0] != obj))
            return [(st, ZERO)]
        if q == 'kio::Logger::write':
            self.writes += 1
            p = self.get(st, 'pending')
            self.need(eng, st, ins, p is not None and args and args[0] == p, 'writes the message', 'something is written that was not just taken from the queue (a message is written twice or a stale one again)')
            self.need(eng, st, ins, bool(self.get(st, 'lock')), 'ordered output', 'a message is written without holding the consumer lock (output of two threads interleaves or is reordered)')
            self.setst(st, pending=None)
            return [(st, ZERO)]
        return None

    def on_dtor(self, eng, st, ins, a, cls):
        if any(x in cls for x in ('scoped_lock<', 'lock_guard<', 'unique_lock<')):
            self.setst(st, lock=tuple(x for x in self.get(st, 'lock') if x[0] != a))
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        self.need(eng, st, ins, self.get(st, 'pending') is None, 'written before the end', 'a message is taken from the queue and never written')
        self.need(eng, st, ins, self.get(st, 'drain') == 'drained', 'drained at the end',
                  'the consumer stops although messages may still be queued' if self.is_thread else 'flush returns although messages queued before are not written')


class ConsumeThread(Consume):
    """between two waits the queue must have been emptied"""

    def waited(self, eng, st, ins, fd):
        self.need(eng, st, ins, self.get(st, 'drain') == 'drained' or not self.get(st, 'woken'), 'drained before waiting',
                  'the consumer waits again without having emptied the queue after it was woken (the wakeup is lost)')
        Consume.waited(self, eng, st, ins, fd)
        self.setst(st, woken=True)

    def get(self, st, k):
        if k in ('woken', 'stop', 'err'):
            return bool(st.auto) and dict(st.auto[0][1]).get(k, False)
        return Consume.get(self, st, k)

    def stopped(self, eng, st, ins):
        Consume.stopped(self, eng, st, ins)
        self.setst(st, stop=True)

    def failed(self, eng, st, ins, err):
        self.setst(st, err=err)

    def on_exit(self, eng, st, ins, how, val):
        Consume.on_exit(self, eng, st, ins, how, val)
        err = self.get(st, 'err')
        self.need(eng, st, ins, self.get(st, 'stop') or (err and eng.truth(st, mk_eq(sub(err, C(4)))) is False), 'runs until stopped',
                  'the consumer thread ends without having been stopped (an interrupted wait is enough): later messages are never written')


# ------------------------------------------------------------------------------------------------ life cycle
class Start(Log):
    label = 'delivery'

    def __init__(self):
        self.fds = set()
        self.started = 0
        self.sizes = 0

    def thread(self, eng, st, ins, what, fn, args):
        if what == 'jthread' and args:
            self.started += 1
            e = self.evs(st, 'eventfd')
            ok = False
            for l, v in st.mem.items():
                if e and l[0] == ROOT and v == e[-1][1]:
                    ok = True
                    self.fds.add(l[1:])
            self.need(eng, st, ins, ok, 'descriptor before thread', 'the consumer thread is started before the descriptor it waits on exists')
            if e:
                self.need(eng, st, ins, e[-1][2][0] == 'c' and not e[-1][2][1] & EFD_NONBLOCK, 'blocking wait', 'the consumer cannot wait: its descriptor is non-blocking and the first empty read ends it')

    def more(self, eng, st, ins, fn, q, b, obj, args):
        if q == 'kio::MPSCQueue::MPSCQueue':
            self.sizes += 1
            a = args[0] if args else ZERO
            self.need(eng, st, ins, mentions(a, ('p', 'queue_size')) and a != ('p', 'queue_size'), 'any queue size', 'the queue is created with a size it rejects (it must be a power of two)')
            self.need(eng, st, ins, any(x[:1] == ('app',) and any(n in str(x[1]) for n in ('next_power_of_2', 'bit_ceil')) for x in subterms(a)), 'any queue size',
                      'the queue size is not rounded up to a power of two')
            return [(st, ZERO)]
        if 'next_power_of_2' in q or q == 'std::bit_ceil':
            return [(st, ('app', q) + tuple(args))]
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how != 'exc':
            self.need(eng, st, ins, self.started > 0, 'consumer started', 'no consumer thread is started')


class Stop(Log):
    label = 'delivery'

    def __init__(self, fds):
        self.fds = fds

    def thread(self, eng, st, ins, what, fn, args):
        if what in ('request_stop', 'join'):
            self.ev(st, what)
        if what == 'detach':
            self.need(eng, st, ins, False, 'joined', 'the consumer thread is detached: queued messages are lost when the logger goes away')

    def on_exit(self, eng, st, ins, how, val):
        names = [e[0] for e in st.auto]
        nofd = any(eng.truth(st, mk_le(add(('init', (ROOT,) + f, 0), ONE))) is True for f in self.fds)
        first = names.index('request_stop') if 'request_stop' in names else None
        self.need(eng, st, ins, first is not None, 'stop requested', 'the consumer thread is never told to stop')
        if first is None:
            return
        if not nofd:
            wake = [i for i, e in enumerate(st.auto) if e[0] == 'write' and e[1][0] == 'init' and e[1][1][1:] in self.fds and e[2][0] == 'c' and e[2][1] != 0 and e[3] == C(8)]
            self.need(eng, st, ins, any(i > first for i in wake), 'wake after stop', 'the consumer is not woken after the stop request: the destructor can wait for ever')
            join = names.index('join') if 'join' in names else None
            close = names.index('close') if 'close' in names else None
            self.need(eng, st, ins, not wake or join is None or min(wake) < join, 'wake before join', 'the destructor joins the consumer before waking it')
            self.need(eng, st, ins, close is None or (join is not None and join < close), 'join before close', 'the descriptor is closed while the consumer thread still uses it')
            self.need(eng, st, ins, close is not None, 'descriptor closed', 'the wakeup descriptor is never closed')


NAMES = {'trace': 1, 'debug': 2, 'info': 3, 'warn': 4, 'error': 5}


def logs(chk):
    """(level, entry point) of the public logging functions: a few instantiations each, all of them in the thorough tier"""
    out = []
    for n, l in NAMES.items():
        fs = fns(chk, 'kio::Logger::' + n)
        if not fs:
            raise CheckError('logger: no instantiation of Logger::' + n)
        fs.sort(key=lambda f: (len(f['params']), f['id']))
        if not chk.thorough():
            fs = fs[:1] + fs[len(fs) // 2:len(fs) // 2 + 1] + fs[-1:]
        out += [(l, f) for i, f in enumerate(fs) if f['id'] not in {g['id'] for g in fs[:i]}]
    return out


def start_fds(chk):
    r = Start()
    cs = [f for f in fns(chk, 'kio::Logger::Logger') if f['fk'] == 'ctor']
    for f in cs:
        chk.run(r, f, 5000, this=THIS)
    if not cs or not r.fds:
        raise CheckError('logger: constructor or wakeup descriptor not found')
    return r.fds, r


def with_level(v):
    def setup(eng, st):
        st.mem[(ROOT, 'level_')] = C(v)
    return setup


def delivery(chk):
    fds, s = start_fds(chk)
    f0 = fns(chk, 'kio::Logger::Logger')[0]
    chk.require('delivery', 'queue created', f0['file'], f0['line'], s.sizes > 0, 'the constructor does not create the queue')
    n = 0
    for lvl, f in logs(chk):
        r = Produce(fds, True)
        eng = chk.run(r, f, 20000, this=THIS, setup=with_level(1))
        n += r.pushes
    if not n:
        raise CheckError('logger: no message is pushed')
    for f in fns(chk, 'kio::Logger::~Logger'):
        chk.run(Stop(fds), f, 5000, this=THIS)
    # every function that pops
    pops = 0
    for name in {qn(f['q']) for f in chk.prog.functions.values() if f['q'].startswith('kio::Logger::')}:
        if name in ('kio::Logger::log', 'kio::Logger::Logger', 'kio::Logger::~Logger', 'kio::Logger::write'):
            continue
        for f in fns(chk, name):
            if f.get('lambda') or f.get('cls') != 'kio::Logger' or any('format_string' in p['t'] for p in f['params']):
                continue
            thread = any('stop_token' in p['t'] for p in f['params'])
            r = (ConsumeThread if thread else Consume)(fds, thread)
            if not pops_queue(chk, f):
                continue
            chk.run(r, f, 20000, this=THIS)
            pops += 1
            chk.require('delivery', 'writes', f['file'], f['line'], r.pops == 0 or r.writes > 0, 'messages are taken from the queue and never written')
            if thread:
                chk.require('delivery', 'waits', f['file'], f['line'], r.waits > 0, 'the consumer thread never waits for messages')
    if pops < 2:
        raise CheckError('logger: consumer not found')


def pops_queue(chk, f, depth=0, seen=None):
    seen = seen or set()
    if f['id'] in seen or depth > 5:
        return False
    seen.add(f['id'])
    for i in ir.lower(f).instrs:
        if i.op == 'call':
            q = qn(i.x['fn']['q'])
            if q == 'kio::MPSCQueue::try_pop':
                return True
            g = chk.prog.functions.get(i.x['fn'].get('id'))
            if g is not None and 'body' in g and q.startswith('kio::Logger::') and pops_queue(chk, g, depth + 1, seen):
                return True
    return False


# ------------------------------------------------------------------------------------------------ content
class Content(Log):
    """what is pushed for a log call"""
    label = 'content'

    def __init__(self, level, threshold, f):
        self.want, self.level, self.f = level, threshold, f
        self.pushes = 0

    def field(self, eng, st, loc, n):
        return models.strip(eng.load(st, loc + (n,)))

    def more(self, eng, st, ins, fn, q, b, obj, args):
        if q == 'std::chrono::system_clock::now' or q.endswith('system_clock::now'):
            return [(st, ('app', 'now'))]
        if b == 'what':
            return [(st, ('app', 'what'))]
        return None

    def on_catch(self, eng, st, ins):
        if ('failed',) not in st.auto:
            self.ev(st, 'failed')

    def push(self, eng, st, ins, obj, args):
        self.pushes += 1
        accept = self.level != 0 and self.want >= self.level
        self.need(eng, st, ins, accept, 'filter', 'a message below the configured level is logged')
        loc = eng.loc_of(args[0])
        want_loc = [('p', p['n']) for p in self.f['params'] if 'source_location' in p['t']]
        L = want_loc[0] if want_loc else None
        g = lambda n: self.field(eng, st, loc, n)
        self.need(eng, st, ins, g('level') == C(self.want), 'level kept', 'a message is queued with another level than the one it was logged with')
        for n, m in (('file', 'file_name'), ('function', 'function_name'), ('line', 'line')):
            v = g(n)
            ok = any(x[:2] == ('app', m) and (L is None or mentions(x, L)) for x in subterms(v))
            self.need(eng, st, ins, ok, n + ' kept', 'the %s of a message is not the one of its log statement' % n)
        self.need(eng, st, ins, mentions(g('thread_id'), ('app', 'thread_id')), 'thread kept', 'the thread id of a message is not the one of the logging thread')
        self.need(eng, st, ins, mentions(g('timestamp'), ('app', 'now')), 'time kept', 'the time of a message is not taken when it is logged')
        m = g('msg')
        d, n = eng.project(m, '#data'), models.size_val(eng, m)
        ok, why = self.text(eng, st, loc, d, n)
        self.need(eng, st, ins, ok, 'text', 'the text of a message is not the complete formatted text' + why)

    def text(self, eng, st, loc, d, n):
        if d is not None and d[0] == '&' and d[1:1 + len(loc)] == loc:
            # the own buffer of the message
            cp = [e for e in self.evs(st, 'copy') if e[1] == d]
            if not cp:
                return False, ' (nothing was copied into its buffer)'
            _, _, src, k = cp[-1]
            if not eq(eng, st, k, n):
                return False, ' (another length was copied than is announced)'
            size = self.cap(st, loc)
            if not le(eng, st, k, C(256)):
                return False, ' (it can be longer than the buffer)'
            for e in self.evs(st, 'formatted'):
                if e[1] == src:
                    return eq(eng, st, k, ('fld', e[2], 'size')), ' (it is cut off)'
            return self.whole(eng, st, src, k)
        return self.whole(eng, st, d, n)

    def cap(self, st, loc):
        return None

    def whole(self, eng, st, d, n):
        """data and size of one string that is the full text"""
        for x in subterms(d):
            if x[:1] == ('sym',) and eng.info.get(x, ('',))[0] == 'call':
                i = eng.info[x]
                if d != eng.project(x, '#data') or not eq(eng, st, n, models.size_val(eng, x)):
                    continue
                if ('failed',) in st.auto:
                    return True, ''
                if i[1] in ('std::format', 'std::vformat'):
                    pars = [('p', p['n']) for p in self.f['params'] if 'source_location' not in p['t']]
                    got = tuple(models.strip(a) for a in i[3])
                    if all(any(mentions(a, p) for a in got) for p in pars if p[1]):
                        return True, ''
        return False, ''

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        accept = self.level != 0 and self.want >= self.level
        k = self.evs(st, 'accepted') + self.evs(st, 'rejected')
        self.need(eng, st, ins, bool(k) == accept, 'filter', 'a message is not logged although its level passes the filter' if accept else 'a message below the configured level is logged')


def content(chk):
    fds, s = start_fds(chk)
    n = 0
    for lvl, f in logs(chk):
        for t in range(LEVELS):
            r = Content(lvl, t, f)
            chk.run(r, f, 20000, this=THIS)
            n += r.pushes
    if not n:
        raise CheckError('logger: no message is pushed')
    ms = [f for f in chk.prog.functions.values() if qn(f['q']) in ('kio::LogMessage::LogMessage', 'kio::LogMessage::operator=') and 'body' in f
          and len(f['params']) == 1 and 'LogMessage' in f['params'][0]['t']]
    if len(ms) < 2:
        raise CheckError('logger: move operations of LogMessage not found')
    for f in ms:
        r = Move()
        r.par = f['params'][0]['n']
        chk.run(r, f, 2000, this=THIS)
    for f in fns(chk, 'kio::Logger::write'):
        for l in NAMES.values():
            r = Write(l)
            r.par = f['params'][0]['n']
            chk.run(r, f, 5000, this=THIS, setup=lambda eng, st: st.mem.__setitem__((('*', ('p', r.par)), 'level'), C(l)))
            if not r.n:
                raise CheckError('logger: write not analysed')
    levels(chk)
    thread_id(chk)
    for name in NAMES:
        for f in fns(chk, 'kio::alog::' + name)[:None if chk.thorough() else 2]:
            chk.run(Forward(name, f), f, 2000)


class Write(Log):
    """what is written for a message of the given level"""
    label = 'content'

    def __init__(self, lvl):
        self.lvl = lvl
        self.n = 0

    def deep(self, eng, st, a, k=0):
        if k > 6:
            return a
        if a[0] == '&':
            a = eng.load(st, eng.loc_of(a))
        return models.strip(a)

    def expand(self, eng, v, out, k=0):
        if k > 12 or v in out:
            return out
        out.add(v)
        for x in subterms(v):
            out.add(x)
            if x[:1] == ('sym',):
                for y in eng.info.get(x, ())[2:]:
                    for z in (y if isinstance(y, (list, tuple)) and (not y or isinstance(y[0], tuple)) else (y,)):
                        if isinstance(z, tuple) and z:
                            self.expand(eng, z, out, k + 1)
        return out

    def more(self, eng, st, ins, fn, q, b, obj, args):
        if q == 'std::basic_format_string::basic_format_string':
            s = eng.sym(st, 'fs', ins, None)
            eng.info[s] = ('lit', 'fs', args[0] if args else None)
            return [(st, s)]
        if q in ('std::format', 'std::vformat'):
            s = eng.sym(st, 'text', ins, None)
            vals = tuple(self.deep(eng, st, a) for a in args)
            eng.info[s] = ('call', q, None, vals)
            lit = [y for y in self.expand(eng, vals[0], set()) if y[:1] == ('s',)]
            if lit:
                n = placeholders(lit[0][1])
                self.need(eng, st, ins, n is None or n >= len(vals) - 1, 'all printed', 'a part of the message is given to the formatter but not printed')
            return [(st, s)]
        if (q.startswith('std::operator<<') or q.startswith('std::basic_ostream::') and b in ('operator<<', 'write', 'put')) and self.out(obj, args):
            xs = args if obj is not None else args[1:]
            self.ev(st, 'out', tuple(self.deep(eng, st, a) for a in xs))
            return [(st, obj if obj is not None else args[0])]
        return None

    def out(self, obj, args):
        o = obj if obj is not None else args[0] if args else None
        return o is not None and 'output_stream_' in repr(o)

    def stderr(self, eng, st, obj, args):
        return not self.out(obj, args)

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        self.n += 1
        outs = self.evs(st, 'out')
        all_ = set()
        for e in outs:
            for v in e[1]:
                self.expand(eng, v, all_)
        M = ('*', ('p', self.par))
        for f in ('thread_id', 'line', 'file', 'timestamp'):
            if f == 'timestamp' and ('failed',) in st.auto:
                continue
            self.need(eng, st, ins, any(x[:1] == ('init',) and x[1][:2] == (M, f) for x in all_) or any(x[:1] == ('&',) and x[1:3] == (M, f) for x in all_),
                      f + ' written', 'the %s of a message is not written' % f)
        self.need(eng, st, ins, any(x[:1] == ('init',) and x[1][:2] == (M, 'msg') or x[:1] == ('&',) and x[1:3] == (M, 'msg') for x in all_), 'text written', 'the text of a message is not written')
        names = {x[1].strip().lower() for x in all_ if x[:1] == ('s',) and isinstance(x[1], str)} & set(NAMES)
        self.need(eng, st, ins, names == {[k for k, v in NAMES.items() if v == self.lvl][0]}, 'level name', 'a message is written with the name of another level')

    def on_catch(self, eng, st, ins):
        if ('failed',) not in st.auto:
            self.ev(st, 'failed')


def placeholders(s):
    if not isinstance(s, str):
        return None
    s = s.replace('{{', '').replace('}}', '')
    return s.count('{')


class Move(Log):
    """moving a message (into and out of the queue) keeps it"""
    label = 'content'
    META = ('timestamp', 'level', 'file', 'function', 'line', 'thread_id')

    def on_exit(self, eng, st, ins, how, val):
        O = ('*', ('p', self.par))
        if eng.truth(st, mk_eq(sub(eng.ptr(THIS), eng.ptr(('p', self.par))))) is True:
            return                  # moved to itself
        for f in self.META:
            v, w = models.strip(eng.load(st, (ROOT, f))), ('init', (O, f), 0)
            self.need(eng, st, ins, v == w or eq(eng, st, v, w), f + ' moved', 'moving a message loses its %s' % f)
        m = eng.load(st, (ROOT, 'msg'))
        d, n = eng.project(m, '#data'), models.size_val(eng, m)
        om = ('init', (O, 'msg'), 0)
        on = (models.size_val(eng, om), ('init', (O, 'msg', '#size'), 0))
        src = ('init', (O, 'heap_msg'), 0)
        short = eng.truth(st, mk_eq(src))
        heap = models.strip(eng.load(st, (ROOT, 'heap_msg')))
        if d is not None and d[0] == '&' and d[1:3] == (ROOT, 'buffer'):
            self.need(eng, st, ins, short is True, 'kind', 'a message with a long text is moved as if it were short: its text is lost')
            self.need(eng, st, ins, any(n == x or eq(eng, st, n, x) for x in on), 'length moved', 'moving a message changes the length of its text')
            cp = [e for e in self.evs(st, 'copy') if e[1][:3] == ('&', ROOT, 'buffer')]
            whole = models.strip(eng.load(st, (ROOT, 'buffer'))) == ('init', (O, 'buffer'), 0)
            part = any((e[2] == ('init', (O, 'msg', '#data'), 0) or e[2] == eng.project(om, '#data') or e[2][:3] == ('&', O, 'buffer')) and le(eng, st, n, e[3]) for e in cp)
            self.need(eng, st, ins, whole or part, 'text moved', 'moving a message does not copy its text')
            self.need(eng, st, ins, heap == ZERO or eng.truth(st, mk_eq(heap)) is True, 'old text dropped', 'a message that takes over a short text keeps its old long text, which replaces the text on the next move')
        else:
            self.need(eng, st, ins, short is False, 'kind', 'after a move the text of a short message points into the message it was moved from')
            self.need(eng, st, ins, heap == src, 'text moved', 'moving a message does not take over its text')
            self.need(eng, st, ins, d is not None and mentions(d, src) and (mentions(n, src) or any(n == x or eq(eng, st, n, x) for x in on)), 'text moved',
                      'after a move the text does not refer to the string the message owns')


class Forward(Log):
    """alog::<level>() reaches Logger::<level> with everything it was given"""
    label = 'content'

    def __init__(self, name, f):
        self.name, self.f = name, f

    def more(self, eng, st, ins, fn, q, b, obj, args):
        if q.startswith('kio::Logger::') and b in NAMES:
            self.ev(st, 'to', b, tuple(models.strip(a) for a in args))
            return [(st, ZERO)]
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        t = self.evs(st, 'to')
        self.need(eng, st, ins, [e[1] for e in t] == [self.name], 'global logger', 'a message for the global logger is not logged once with its level')
        for e in t:
            pars = [('p', p['n']) for p in self.f['params'] if p['n']]
            self.need(eng, st, ins, all(any(mentions(a, p) for a in e[2]) for p in pars), 'global logger', 'the global logger does not get everything it was given')


class Level(Log):
    """the level that is set is the level that filters"""
    label = 'content'

    def __init__(self, par):
        self.par = par

    def more(self, eng, st, ins, fn, q, b, obj, args):
        if q.startswith('std::atomic') and b in ('store', 'exchange', 'operator=', 'compare_exchange_strong', 'compare_exchange_weak', 'atomic') or q.startswith('std::__atomic_base') and b in ('store', 'operator='):
            v = args[1] if 'compare' in b and len(args) > 1 else args[0] if args else None
            if 'LogLevel' in (fn.get('cls') or '') or v == self.par:
                self.ev(st, 'set', v)
                return [(st, ONE)]
        return None

    def on_store(self, eng, st, ins, loc, v):
        if loc[:1] == (ROOT,) and v == self.par:
            self.ev(st, 'set', v)

    def on_exit(self, eng, st, ins, how, val):
        if how != 'exc':
            s = self.evs(st, 'set')
            self.need(eng, st, ins, bool(s) and s[-1][1] == self.par, 'level set', 'the level that is asked for is not the level that is used')


def levels(chk):
    for name in ('kio::Logger::Logger', 'kio::Logger::set_level'):
        n = 0
        for f in fns(chk, name):
            ps = [p for p in f['params'] if 'LogLevel' in p['t']]
            if ps:
                chk.run(Level(('p', ps[0]['n'])), f, 5000, this=THIS)
                n += 1
        if not n:
            raise CheckError('logger: %s not found' % name)


class ThreadId(Log):
    """the id of the calling thread"""
    label = 'content'

    def more(self, eng, st, ins, fn, q, b, obj, args):
        if q == 'syscall' and args and args[0] == C(186) or q in ('gettid', 'pthread_self', 'std::this_thread::get_id'):
            return [(st, ('app', 'gettid'))]
        return None

    def on_call(self, eng, st, ins, fn, obj, args):
        if qn(fn['q']) == 'kio::get_thread_id':
            return None
        return Log.on_call(self, eng, st, ins, fn, obj, args)

    def on_exit(self, eng, st, ins, how, val):
        if how == 'ret':
            self.need(eng, st, ins, val is not None and mentions(val, ('app', 'gettid')), 'thread id', 'the thread id is not the id of the calling thread')


def thread_id(chk):
    for f in fns(chk, 'kio::get_thread_id'):
        chk.run(ThreadId(), f, 500)
        for i in ir.lower(f).instrs:
            if i.op == 'addr_glob':
                chk.require('content', 'thread id cached per thread', f['file'], f['line'], bool(i.x.get('tls')) or i.x.get('cv') is not None, 'the thread id is kept in a variable that all threads share')
