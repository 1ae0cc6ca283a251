"""Coroutine synchronisation: AsyncBaton (C18), AsyncEvent (C19), when_any (C20)."""
from .common import *
from .chrono import chrono_call, split_of

THIS = ('p', 'this')
ROOT = ('*', THIS)
ACQ, REL = (1, 2, 4, 5), (3, 4, 5)
WA = 'kio::io::internal::WorkerAccess::'
ATOM = ('std::atomic::', 'std::__atomic_base::')
NOOP = ('app', 'noop_coroutine')
SQE = ('&', ('glob', '#sqe'))


def fns(chk, q):
    return [f for f in chk.prog.functions.values() if qn(f['q']) == q and 'body' in f]


def one(chk, q):
    fs = fns(chk, q)
    if not fs:
        raise CheckError('%s not found' % q)
    return fs[0]


class Atomics(R):
    """thread-modular view of atomic fields: every operation on a watched location is preceded by what the other side can do"""
    heap_volatile = False
    max_states = 400
    max_head = 200
    numeric = True

    def __init__(self):
        self.watch = {}

    def get(self, st, k, d=None):
        return dict(st.auto).get(k, d)

    def put(self, st, **kw):
        d = dict(st.auto)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        st.auto = tuple(sorted(d.items(), key=repr))

    def order(self, fn, args, i):
        o = args[i] if len(args) > i else None
        return o[1] if o is not None and o[0] == 'c' else 5

    def atomic(self, eng, st, ins, fn, obj, args):
        """dispatch of one operation on a watched atomic; None when it is none"""
        q, b = qn(fn['q']), base_name(fn['q'])
        if obj is None or not q.startswith(ATOM) or b.startswith('~') or q.endswith('::atomic'):
            return None
        w = self.watch.get(eng.loc_of(obj))
        if w is None:
            return self.private(eng, st, ins, b, eng.loc_of(obj), args)
        out = []
        for s in self.env(eng, st, ins, w):
            if b == 'load' or b.startswith('operator ') and b not in ('operator =',):
                out += self.op_load(eng, s, ins, w, self.order(fn, args, 0))
            elif b in ('store', 'operator='):
                out += self.op_store(eng, s, ins, w, args[0], self.order(fn, args, 1))
            elif b == 'exchange':
                out += self.op_rmw(eng, s, ins, w, args[0], self.order(fn, args, 1))
            elif b.startswith('compare_exchange_'):
                exp = args[0]
                so = self.order(fn, args, 2)
                fo = self.order(fn, args, 3) if len(args) > 3 and args[3][0] == 'c' else {4: 2, 3: 0}.get(so, so)
                out += self.op_cas(eng, s, ins, w, exp, args[1], so, fo, b.endswith('weak'))
            else:
                self.bad(eng, s, ins, 'protocol', 'operation %s on the state is outside the protocol' % b)
        return out

    def private(self, eng, st, ins, b, loc, args):
        """an atomic in the frame of the waiter: only its own thread works on it"""
        if not (isinstance(loc[0], tuple) and loc[0][0] == 'v'):
            return None
        v = eng.load(st, loc)
        if b == 'load':
            return [(st, v)]
        if b in ('store', 'operator=', 'exchange'):
            eng.store(st, loc, models.strip(args[0]))
            return [(st, v if b == 'exchange' else models.strip(args[0]))]
        return None

    def bad(self, eng, st, ins, rule, msg, key=None):
        self.need(eng, st, ins, False, rule, msg)

    def env(self, eng, st, ins, w):
        return [st]


NOT, SET, WAIT = 'NOT', 'SET', 'WAIT'


class Baton(Atomics):
    """one waiter, any number of notifiers; the state is what the code stores, the other side's moves are added before each operation"""
    label = 'baton'

    def __init__(self, role, val, fields, owner, root=ROOT, timed=False):
        super().__init__()
        self.role, self.val, self.owner, self.root, self.timed = role, val, owner, root, timed
        self.name = {v: k for k, v in val.items()}
        self.watch = {(root, fields[0]): 'state', (root, fields[1]): 'waiter'}
        self.ends = []
        self.waits = 0

    # ---- the other side
    def env(self, eng, st, ins, w):
        if w != 'state':
            return [st]
        out = [st]
        S = self.get(st, 'S')
        if self.role == 'waiter':
            if S != SET and not self.get(st, 'quiet'):
                t = st.copy()
                self.notified(eng, t, ins)
                out.append(t)
        elif self.role == 'notify':
            for n in {NOT: (SET, WAIT), WAIT: (SET, NOT), SET: ()}[S]:
                t = st.copy()
                self.put(t, S=n)
                out.append(t)
        return out

    def notified(self, eng, st, ins):
        if self.get(st, 'S') == WAIT:
            self.need(eng, st, ins, self.get(st, 'pub') == 'h', 'publish', 'a notifier can find the state WAITING before the handle of the waiter is published')
            self.put(st, P=1)
        self.put(st, S=SET)

    # ---- operations
    def code(self, eng, st, ins, v):
        v = models.strip(v)
        if v[0] == 'c' and v[1] in self.name:
            return self.name[v[1]]
        self.bad(eng, st, ins, 'protocol', 'a value that is no state is stored in the state')
        return NOT

    def op_load(self, eng, st, ins, w, order):
        if w == 'waiter':
            if self.role == 'notify':
                self.need(eng, st, ins, self.get(st, 'mine') == WAIT, 'handle', 'the handle of the waiter is read before the signal is set')
                self.need(eng, st, ins, self.get(st, 'acq'), 'ordering', 'the handle of the waiter is read without acquiring what the waiter released')
                return [(st, ('handle', 'w'))]
            return [(st, eng.sym(st, 'waiter', ins))]
        S = self.get(st, 'S')
        self.saw(st, S, order)
        return [(st, C(self.val[S]))]

    def saw(self, st, S, order):
        if S == SET:
            self.put(st, seen=1)
            if order in ACQ:
                self.put(st, acqset=1)

    def change(self, eng, st, ins, old, new, order):
        if self.role == 'notify':
            if self.get(st, 'mine') is None or old != SET:
                self.need(eng, st, ins, new == SET, 'signal', 'notify() stores something other than the signal')
                self.need(eng, st, ins, order in REL, 'ordering', 'the signal is set without release ordering: what was written before notify() need not be visible')
                if old == WAIT:
                    self.need(eng, st, ins, self.get(st, 'mine') != WAIT, 'once', 'two waiters woken by one notify()')
                    self.put(st, mine=WAIT, acq=1 if order in ACQ else None)
                else:
                    self.put(st, mine=self.get(st, 'mine') or old)
        if self.role == 'waiter' and new == WAIT:
            self.need(eng, st, ins, old == NOT, 'signal', 'a signal that is already set is overwritten by the waiter')
            self.need(eng, st, ins, self.get(st, 'pub') == 'h', 'publish', 'the waiter registers before its handle is published')
            self.need(eng, st, ins, order in REL or self.get(st, 'rel'), 'ordering', 'the waiter registers without releasing its handle')
        if self.role == 'waiter' and new == NOT:
            self.need(eng, st, ins, old == WAIT, 'signal', 'a wait erases a signal')
        if self.role == 'waiter' and new == SET:
            self.bad(eng, st, ins, 'signal', 'a wait sets the signal')
        self.put(st, S=new)

    def op_store(self, eng, st, ins, w, v, order):
        if w == 'waiter':
            v = models.hval(eng, st, v) if v[0] == '&' else models.strip(v)
            if self.role == 'waiter':
                self.put(st, pub='h' if v[0] == 'handle' else 'other', rel=None)
            elif self.role == 'reset':
                self.put(st, pub=None)
            else:
                self.bad(eng, st, ins, 'handle', 'notify() changes the handle of the waiter')
            return [(st, v)]
        new = self.code(eng, st, ins, v)
        if self.role == 'reset':
            self.put(st, S=new)
            return [(st, v)]
        if self.role == 'notify':
            self.bad(eng, st, ins, 'lost waiter', 'the signal is set by a plain store: a waiter that registered just before is not seen')
            self.put(st, mine=SET)
            return [(st, v)]
        self.change(eng, st, ins, self.get(st, 'S'), new, order)
        return [(st, v)]

    def op_rmw(self, eng, st, ins, w, v, order):
        if w == 'waiter':
            if self.role == 'notify':
                r = self.op_load(eng, st, ins, w, order)
                return r
            return self.op_store(eng, st, ins, w, v, order)
        S = self.get(st, 'S')
        self.saw(st, S, order)
        self.change(eng, st, ins, S, self.code(eng, st, ins, v), order)
        return [(st, C(self.val[S]))]

    def op_cas(self, eng, st, ins, w, exp, new, so, fo, weak):
        if w == 'waiter':
            return [(st, eng.sym(st, 'cas', ins))]
        S = self.get(st, 'S')
        loc = eng.loc_of(exp)
        e = models.strip(eng.load(st, loc, 'unsigned char'))
        out = []
        hit = e == C(self.val[S])
        if hit:
            t = st.copy()
            self.saw(t, S, so)
            self.change(eng, t, ins, S, self.code(eng, t, ins, models.strip(new)), so)
            out.append((t, ONE))
        if not hit or weak:
            self.saw(st, S, fo)
            eng.store(st, loc, C(self.val[S]))
            out.append((st, ZERO))
        return out

    # ---- calls
    def is_owner(self, eng, st, a):
        v = models.strip(a)
        return v in self.owners(eng, st)

    def owners(self, eng, st):
        o = eng.load(st, (self.root, self.owner))
        return (models.strip(o), ('&', ('*', o)), ('&', self.root, self.owner))

    def hname(self, eng, st, a):
        v = models.hval(eng, st, a) if a[0] == '&' else models.strip(a)
        if v == ('handle', 'w'):
            return 'waiter'
        if v[0] == 'handle':
            return 'h'
        if v[:2] == NOOP:
            return 'noop'
        return None

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if obj is not None and obj[0] == '&' and obj[1] == self.root and len(obj) > 2 and self.get(st, 'posted') and not b.startswith('~'):
            self.bad(eng, st, ins, 'dead baton', 'the baton is used after its waiter has been posted (which may have destroyed it)')
        r = self.atomic(eng, st, ins, fn, obj, args)
        if r is not None:
            return r
        r = chrono_call(eng, st, ins, fn, obj, args)
        if r is not None:
            return r
        if q == 'std::atomic_thread_fence':
            o = self.order(fn, args, 0)
            if o in REL and self.get(st, 'pub'):
                self.put(st, rel=1)
            if o in ACQ:
                if self.get(st, 'mine'):
                    self.put(st, acq=1)
                if self.get(st, 'seen'):
                    self.put(st, acqset=1)
            return [(st, ('unk', 'void', 0))]
        if q == 'std::noop_coroutine':
            return [(st, NOOP)]
        if q == 'kio::io::Worker::is_on_worker_thread':
            t = st.copy()
            if self.is_owner(eng, st, obj):
                self.put(t, on=1)
            return [(t, ONE), (st, ZERO)]
        if not q.startswith(WA):
            if q.startswith('io_uring_'):
                return self.uring(eng, st, ins, q, args)
            return None
        own = self.is_owner(eng, st, args[0])
        self.need(eng, st, ins, own, 'owner', '%s is applied to a worker that is not the owner of the baton' % b)
        if b == 'post':
            h = self.hname(eng, st, args[1])
            if self.role == 'notify':
                self.need(eng, st, ins, h == 'waiter', 'post', 'something other than the registered waiter is posted')
                self.need(eng, st, ins, self.get(st, 'mine') == WAIT, 'post', 'a coroutine is posted that was not waiting')
                self.need(eng, st, ins, not self.get(st, 'posted'), 'once', 'the waiter is posted twice')
                self.put(st, posted=1)
            else:
                self.need(eng, st, ins, h == 'h' and not self.get(st, 'P'), 'post', 'the wait posts something other than itself')
                self.put(st, P=1)
            return [(st, ('unk', 'void', 0))]
        if b == 'get_ring':
            return [(st, ('app', 'ring'))]
        if b == 'get_op_id':
            self.thread(eng, st, ins)
            self.need(eng, st, ins, self.get(st, 'op') in (None, 'off', 'gone'), 'timer', 'a second timer is set up while one is pending')
            self.put(st, op='got', slot=None)
            return [(st, ('app', 'op_id'))]
        self.thread(eng, st, ins)
        op = self.get(st, 'op')
        self.need(eng, st, ins, models.strip(args[1]) == ('app', 'op_id') and op in ('got', 'armed', 'fired'), 'timer', '%s on an operation slot the wait does not own' % b)
        if b == 'init_op_slot':
            self.put(st, slot=self.hname(eng, st, args[2]) or 'other')
        elif b == 'release_op_id':
            self.need(eng, st, ins, op == 'got', 'timer', 'the operation slot of a pending timer is released (the worker releases it when the timer completes)')
            self.put(st, op='off')
        elif b == 'get_op_result':
            return [(st, C(-62) if op == 'fired' else ZERO)]
        else:
            self.bad(eng, st, ins, 'timer', 'a wait must not call %s' % b)
        return [(st, ('unk', 'void', 0))]

    def thread(self, eng, st, ins):
        self.need(eng, st, ins, self.get(st, 'on'), 'thread', 'the ring of the owner is used before the coroutine has switched to the owner')

    def uring(self, eng, st, ins, q, args):
        self.thread(eng, st, ins)
        if q == 'io_uring_get_sqe':
            t = st.copy()
            self.put(t, sqe='full')
            self.put(st, sqe='got')
            return [(st, SQE), (t, ZERO)]
        if q == 'io_uring_prep_timeout':
            self.need(eng, st, ins, self.get(st, 'sqe') == 'got', 'timer', 'the timer is prepared without a submission entry')
            a = args[1]
            loc = a[1:] if a[0] == '&' else None
            d = None
            if loc:
                d = split_of(models.strip(eng.load(st, loc + ('tv_sec',), 'long')), models.strip(eng.load(st, loc + ('tv_nsec',), 'long')))
            self.need(eng, st, ins, d is not None and d == models.strip(self.duration(eng, st)), 'duration', 'the timer is not set to the duration given (seconds and nanoseconds)')
            self.need(eng, st, ins, models.strip(args[2]) == ZERO and models.strip(args[3]) == ZERO, 'duration', 'the timer is not a plain relative timeout')
            self.put(st, sqe='prep', ts=loc)
            return [(st, ('unk', 'void', 0))]
        if q == 'io_uring_sqe_set_data64':
            self.need(eng, st, ins, self.get(st, 'sqe') == 'prep' and models.strip(args[1]) == ('app', 'op_id'), 'timer', 'the timer does not carry the operation id of the wait')
            self.put(st, sqe='data', op='armed')
            return [(st, ('unk', 'void', 0))]
        if q == 'io_uring_submit':
            self.need(eng, st, ins, self.get(st, 'sqe') != 'got' and self.get(st, 'sqe') != 'prep', 'timer', 'an unfinished submission entry is submitted')
            if self.get(st, 'sqe') == 'data':
                self.put(st, sub=1)
            return [(st, eng.sym(st, 'submitted', ins, 'int'))]
        self.bad(eng, st, ins, 'timer', '%s is outside the protocol of a timed wait' % q)
        return None

    def duration(self, eng, st):
        return eng.load(st, self.dur, 'long')

    # ---- suspension
    def on_suspend(self, eng, st, ins, aw):
        self.waits += 1
        out = []
        S, P, op, slot = (self.get(st, k) for k in ('S', 'P', 'op', 'slot'))
        sqe = self.get(st, 'sqe')
        self.need(eng, st, ins, sqe not in ('got', 'prep'), 'timer', 'the coroutine suspends with an unfinished submission entry')
        self.need(eng, st, ins, op != 'got' or sqe == 'full', 'timer', 'the coroutine suspends with an operation slot that no timer will complete')
        if op == 'armed' and slot == 'h':
            ts = self.get(st, 'ts')
            self.need(eng, st, ins, self.get(st, 'sub') or (ts is not None and self.lives(st, ts)), 'timespec', 'the timespec handed to the kernel does not outlive the suspension')
        if P:
            t = st.copy()
            self.resumed(eng, t, 'post')
            self.put(t, P=None, on=1)
            out.append(t)
        if S == WAIT:
            t = st.copy()
            self.notified(eng, t, ins)
            self.resumed(eng, t, 'post')
            self.put(t, P=None)
            out.append(t)
        if op == 'armed':
            self.need(eng, st, ins, slot is not None and slot != 'other', 'timer', 'the slot of the timer does not hold the waiting coroutine')
        if op == 'armed' and slot == 'h':
            for late in (False, True):
                if late and S != WAIT:
                    continue
                t = st.copy()
                if late:
                    self.notified(eng, t, ins)
                self.resumed(eng, t, 'timer')
                self.put(t, op='fired')
                out.append(t)
        self.need(eng, st, ins, bool(out), 'lost wakeup', 'the coroutine suspends although nothing is left that could resume it')
        return out

    def on_await(self, eng, st, ins, val):
        a = qn(ins.x.get('awt') or '')
        if a == 'std::suspend_never':
            return [(st, ('unk', 'void', 0))]
        if a == 'std::suspend_always':
            return [(s, ('unk', 'void', 0)) for s in self.on_suspend(eng, st, ins, val)]
        return None

    def resumed(self, eng, st, how):
        if self.get(st, 'op') == 'fired':
            self.put(st, op='gone')

    def lives(self, st, loc):
        r = loc[0]
        return isinstance(r, tuple) and (r[0] != 'v' or any(f.ctx == r[1] and f.fn.f.get('coro') for f in st.frames) or any(f.ctx == r[1] and f is st.frames[0] for f in st.frames))

    def on_load(self, eng, st, ins, loc, val):
        self.touch(eng, st, ins, loc)

    def on_store(self, eng, st, ins, loc, val):
        self.touch(eng, st, ins, loc)

    def touch(self, eng, st, ins, loc):
        if self.role == 'notify' and loc and loc[0] == self.root:
            self.need(eng, st, ins, not self.get(st, 'posted'), 'dead baton', 'the baton is used after its waiter has been posted (which may have destroyed it)')

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        S = self.get(st, 'S')
        if self.role == 'notify':
            m = self.get(st, 'mine')
            self.need(eng, st, ins, m is not None or self.get(st, 'seen'), 'signal', 'a path through notify() does not set the signal')
            self.need(eng, st, ins, m != WAIT or self.get(st, 'posted'), 'lost wakeup', 'a path through notify() does not post the waiter it found')
        elif self.role == 'ready':
            v = self.truthy(eng, st, val)
            self.need(eng, st, ins, v is not None and v == (S == SET), 'ready', 'ready() does not tell whether the signal is set')
            self.need(eng, st, ins, S != SET or self.get(st, 'acqset'), 'ordering', 'ready() reports the signal without acquire ordering')
        elif self.role == 'reset':
            self.need(eng, st, ins, S == NOT, 'reset', 'reset() leaves the signal set')
        else:
            self.need(eng, st, ins, not self.get(st, 'P'), 'double resume', 'the wait can finish while a post of its coroutine is still pending: the coroutine is resumed again after it is gone')
            self.need(eng, st, ins, S != WAIT, 'double resume', 'the wait finishes while it is still registered: the next notify() resumes a coroutine that is gone')
            op, slot = self.get(st, 'op'), self.get(st, 'slot')
            self.need(eng, st, ins, op != 'armed' or slot == 'noop', 'double resume', 'the wait finishes while its timer is still aimed at its coroutine')
            self.need(eng, st, ins, op != 'got', 'timer', 'the wait finishes without giving its operation slot back')
            self.need(eng, st, ins, self.get(st, 'sqe') not in ('got', 'prep'), 'timer', 'the wait finishes with an unfinished submission entry')
            self.need(eng, st, ins, op != 'armed' or self.get(st, 'sub') or self.get(st, 'ts') is None or self.get(st, 'ts')[0][0] != 'v', 'timespec',
                      'the wait can finish before the kernel has read the timespec in its frame')
            if self.timed:
                v = self.truthy(eng, st, val)
                if v is None:
                    self.bad(eng, st, ins, 'answer', 'the answer of the wait does not depend on the signal alone')
                elif v:
                    self.need(eng, st, ins, S == SET, 'answer', 'a timed wait reports a signal that was not given')
                    self.need(eng, st, ins, self.get(st, 'acqset') or self.get(st, 'seen') is None, 'ordering', 'the signal is reported without acquire ordering')
                else:
                    self.need(eng, st, ins, op in ('fired', 'gone') or self.get(st, 'sqe') == 'full', 'answer', 'a timed wait reports a timeout although its timer has not expired')
            else:
                self.need(eng, st, ins, S == SET, 'early return', 'wait() returns although the signal is not set')
                self.need(eng, st, ins, self.get(st, 'acqset') or self.get(st, 'seen') is None, 'ordering', 'the signal is taken without acquire ordering')
            self.ends.append((S, op))

    def truthy(self, eng, st, v):
        v = models.strip(v) if v is not None else None
        if v is None:
            return None
        if v[0] == 'ok':
            v = v[1]
        if v[0] == 'c':
            return v[1] != 0
        return eng.truth(st, as_pred(v))


def baton_layout(chk):
    q = 'kio::sync::AsyncBaton'
    c = chk.prog.cls(q)
    fl = {f['n']: f for f in c['fields']}
    hs = [n for n, f in fl.items() if 'atomic' in f['t'] and 'coroutine_handle' in f['t']]
    ss = [n for n, f in fl.items() if 'atomic' in f['t'] and 'coroutine_handle' not in f['t']]
    ow = [n for n, f in fl.items() if 'Worker' in f['t']]
    if len(hs) != 1 or len(ss) != 1 or len(ow) != 1:
        raise CheckError('AsyncBaton: fields not recognised')
    en = chk.prog.enum(q + '::State')
    vs = {e['n']: int(e['v']) for e in en['c']}
    if set(vs) != {'NOT_SET', 'SET', 'WAITING'}:
        raise CheckError('AsyncBaton: states not recognised')
    return (ss[0], hs[0]), ow[0], {NOT: vs['NOT_SET'], SET: vs['SET'], WAIT: vs['WAITING']}


def start(rule, S, **kw):
    def setup(eng, st):
        rule.put(st, S=S, **kw)
    return setup


def check_baton(chk):
    fields, owner, val = baton_layout(chk)
    q = 'kio::sync::AsyncBaton::'
    for f in fns(chk, q + 'AsyncBaton'):
        if f['params'] and 'Worker' in f['params'][0]['t']:
            chk.run(BatonInit(fields[0], owner, C(val[NOT]), 'a new baton is signalled'), f, this=THIS, args=[('p', 'owner')])
    for f in fns(chk, q + 'notify'):
        for S in (NOT, SET, WAIT):
            r = Baton('notify', val, fields, owner)
            chk.run(r, f, this=THIS, setup=start(r, S))
    for f in fns(chk, q + 'ready'):
        for S in (NOT, SET):
            r = Baton('ready', val, fields, owner)
            chk.run(r, f, this=THIS, setup=start(r, S))
    for f in fns(chk, q + 'reset'):
        for S in (NOT, SET):
            r = Baton('reset', val, fields, owner)
            chk.run(r, f, this=THIS, setup=start(r, S))
    f = one(chk, 'kio_units::wait_baton')
    for S in (NOT, SET):
        r = Baton('waiter', val, fields, owner, root=('*', ('p', 'b')))
        chk.run(r, f, this=None, args=[('p', 'b')], setup=start(r, S, on=1))
    for f in fns(chk, q + 'wait_for'):
        for S in (NOT, SET):
            r = Baton('waiter', val, fields, owner, timed=True)

            def setup(eng, st, r=r, S=S):
                r.put(st, S=S)
                r.dur = eng.loc_of(param(eng, st, f, 0))
            chk.run(r, f, 400000, this=THIS, setup=setup)
            if S == NOT and r.waits < 2:
                raise CheckError('wait_for: suspensions not seen')


def param(eng, st, f, i):
    return ('&', ('v', st.top.ctx, f['params'][i]['id']))


class BatonInit(R):
    """a new baton is not signalled"""
    label = 'baton'
    heap_volatile = False
    fast = True

    def __init__(self, field, owner, want, what):
        self.field, self.owner, self.want, self.what = field, owner, want, what

    def on_exit(self, eng, st, ins, how, val):
        if how != 'exc':
            v = models.strip(eng.load(st, (ROOT, self.field)))
            self.need(eng, st, ins, v == self.want, 'initial', self.what)
            o = models.strip(eng.load(st, (ROOT, self.owner)))
            self.need(eng, st, ins, o in (('p', 'owner'), ('&', ('*', ('p', 'owner')))), 'owner', 'the owner given is not the owner kept')


# ---------------------------------------------------------------- AsyncEvent
SENT = 'kio::sync::AsyncEvent::SET_SENTINEL'


class Event(Atomics):
    """the list of waiters behind one atomic pointer"""
    label = 'event'

    def __init__(self, role, fields, owner, root=ROOT):
        super().__init__()
        self.role, self.owner, self.root = role, owner, root
        self.state, self.next, self.handle = fields
        self.watch = {(root, self.state): 'state'}
        self.suspended = 0

    def sentinel(self, v):
        v = models.strip(v)
        return v[0] == '&' and v[1][0] == 'glob' and v[1][1].endswith('::SET_SENTINEL') and len(v) == 2

    def sentaddr(self):
        return ('&', ('glob', self.sentq))

    def is_sent(self, eng, st, v):
        v = models.strip(v)
        if self.sentinel(v):
            return True
        if v == ZERO:
            return False
        return eng.truth(st, mk_eq(sub(eng.ptr(v), eng.ptr(self.sentaddr()))))

    def is_null(self, eng, st, v):
        v = models.strip(v)
        return True if v == ZERO else False if v[0] == '&' else eng.truth(st, mk_eq(v))

    # ---- the other side: what a load can find
    def value(self, eng, st, ins, kinds):
        out = []
        for k in kinds:
            t = st.copy()
            if k == 'null':
                out.append((t, ZERO, k))
            elif k == 'set':
                out.append((t, self.sentaddr(), k))
            else:
                if self.role != 'notify':
                    out.append((t, ('&', ('glob', '#list')), k))
                    continue
                s = eng.sym(t, 'node', ins)
                for p in (mk_eq(s), mk_eq(sub(eng.ptr(s), eng.ptr(self.sentaddr())))):
                    t = eng.assume(t, p, False) if t is not None else None
                if t is not None:
                    out.append((t, s, k))
        return out

    def kinds(self, st):
        if self.role in ('waiter', 'is_set'):
            return ('null', 'set', 'list')
        return (self.get(st, 'S'),)

    def op_load(self, eng, st, ins, w, order):
        out = []
        for t, v, k in self.value(eng, st, ins, self.kinds(st)):
            self.put(t, rlx=None if order in ACQ else 1)
            if self.role == 'waiter':
                self.put(t, last=k)
            if self.role == 'is_set':
                self.put(t, S=k)
            out.append((t, v))
        return out

    def op_store(self, eng, st, ins, w, v, order):
        if self.role == 'reset':
            S = self.get(st, 'S')
            self.need(eng, st, ins, S != 'list', 'reset', 'reset() throws the waiters away')
            self.need(eng, st, ins, models.strip(v) == ZERO, 'reset', 'reset() leaves the event in a state that is not "not set"')
            self.put(st, S='null')
            return [(st, v)]
        self.bad(eng, st, ins, 'lost waiter', 'the state is overwritten by a plain store: waiters that registered just before are lost')
        self.put(st, stage='done', did=1)
        return [(st, v)]

    def op_rmw(self, eng, st, ins, w, v, order):
        v = models.strip(v)
        if self.role != 'notify':
            self.bad(eng, st, ins, 'protocol', 'the state is exchanged outside notify()')
            return [(st, ZERO)]
        self.need(eng, st, ins, self.sentinel(v), 'signal', 'notify() stores something other than the signal')
        self.need(eng, st, ins, order in REL, 'ordering', 'the signal is set without release ordering: what was written before notify() need not be visible')
        out = []
        for t, x, k in self.value(eng, st, ins, ('set',) if self.get(st, 'did') else self.kinds(st)):
            if not self.get(t, 'did'):
                self.put(t, did=1, acq=1 if order in ACQ else None, stage='N0' if k == 'list' else 'done')
            out.append((t, x))
        return out

    def op_cas(self, eng, st, ins, w, exp, new, so, fo, weak):
        loc = eng.loc_of(exp)
        e = models.strip(eng.load(st, loc))
        new = models.strip(new)
        out = []
        if self.role in ('notify', 'reset'):
            S = self.get(st, 'S')
            can = {'null': self.is_null(eng, st, e), 'set': self.is_sent(eng, st, e), 'list': False if self.is_null(eng, st, e) or self.is_sent(eng, st, e) else None}[S]
            if can is not False:
                t = st.copy()
                if self.role == 'notify':
                    self.need(eng, t, ins, self.sentinel(new), 'signal', 'notify() stores something other than the signal')
                    self.need(eng, t, ins, so in REL, 'ordering', 'the signal is set without release ordering: what was written before notify() need not be visible')
                    self.put(t, did=1, S='set', acq=1 if so in ACQ else None, stage='N0' if S == 'list' else 'done')
                else:
                    self.need(eng, t, ins, S != 'list', 'reset', 'reset() throws the waiters away')
                    self.put(t, S='null' if new == ZERO else 'other')
                out.append((t, ONE))
            if can is not True or weak:
                for t, x, k in self.value(eng, st, ins, (S,)):
                    eng.store(t, loc, x)
                    out.append((t, ZERO))
            return out
        # a waiter registers
        t = st.copy()
        if self.is_sent(eng, t, e) is not True:
            self.need(eng, t, ins, self.is_sent(eng, t, e) is False, 'lost wakeup', 'the waiter registers without having ruled out that the signal is already set')
            me = new[1:] if new[0] == '&' else None
            ok = me is not None and me[0][0] == 'v'
            self.need(eng, t, ins, ok, 'publish', 'something other than the waiter is registered')
            if ok:
                self.need(eng, t, ins, models.strip(eng.load(t, me + (self.next,))) == e, 'publish', 'the waiter is registered without a link to the waiters before it')
                self.need(eng, t, ins, self.hval(eng, t, eng.load(t, me + (self.handle,))), 'publish', 'the waiter is registered before its handle is published')
                self.need(eng, t, ins, self.lives(t, me), 'publish', 'the registered waiter does not outlive the suspension')
            self.need(eng, t, ins, so in REL, 'ordering', 'the waiter is registered without release ordering')
            self.need(eng, t, ins, not self.get(t, 'reg'), 'once', 'the waiter is registered twice')
            self.put(t, reg=1)
            out.append((t, ONE))
        for t, x, k in self.value(eng, st, ins, ('null', 'set', 'list')):
            eng.store(t, loc, x)
            self.put(t, rlx=None if fo in ACQ else 1, last=k)
            out.append((t, ZERO))
        return out

    def hval(self, eng, st, v):
        v = models.strip(v)
        return v[0] == 'handle' or (v[:2] in (('app', 'addr_of_handle'),) and v[2][0] == 'handle')

    lives = Baton.lives
    is_owner = Baton.is_owner
    owners = Baton.owners
    truthy = Baton.truthy

    # ---- the nodes of the list, in notify()
    def node_field(self, loc):
        if self.role == 'notify' and len(loc) == 2 and isinstance(loc[0], tuple) and loc[0][0] == '*' and loc[0] != self.root and loc[1] in (self.next, self.handle):
            return loc[0][1], loc[1]
        return None

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if obj is not None and q.startswith(ATOM) and obj[0] == '&':
            nf = self.node_field(eng.loc_of(obj))
            if nf:
                return self.node(eng, st, ins, b, nf, self.order(fn, args, 0))
        r = self.atomic(eng, st, ins, fn, obj, args)
        if r is not None:
            return r
        if q == 'std::coroutine_handle::address' and obj is not None:
            return [(st, ('app', 'addr_of_handle', models.hval(eng, st, obj)))]
        if q == 'std::coroutine_handle::from_address':
            v = models.strip(args[0])
            if v[0] == '&' and v[1][0] == 'glob' and v[1][1] in ('#next', '#cur'):
                return [(st, ('handle', v[1][1][1:]))]
            return [(st, v[2] if v[:2] == ('app', 'addr_of_handle') else v)]
        if q == 'std::atomic_thread_fence':
            if self.order(fn, args, 0) in ACQ:
                self.put(st, rlx=None, acq=1 if self.get(st, 'did') else None)
            return [(st, ('unk', 'void', 0))]
        if q == WA + 'post':
            self.need(eng, st, ins, self.is_owner(eng, st, args[0]), 'owner', 'a waiter is posted to a worker that is not the owner of the event')
            h = models.hval(eng, st, args[1]) if args[1][0] == '&' else models.strip(args[1])
            if self.role != 'notify':
                self.bad(eng, st, ins, 'post', 'a wait posts something')
                return [(st, ('unk', 'void', 0))]
            stage = self.get(st, 'stage')
            self.need(eng, st, ins, h == ('handle', 'cur') or h[:1] == ('handle',), 'post', 'something other than a registered waiter is posted')
            if stage == 'N1':
                self.put(st, stage='N0' if self.get(st, 'more') else 'done', more=None)
            elif stage == 'N0':
                self.put(st, stage='PD')
            else:
                self.bad(eng, st, ins, 'once', 'a waiter is posted twice')
            if h == ('handle', 'next'):
                self.bad(eng, st, ins, 'post', 'a waiter is skipped')
            return [(st, ('unk', 'void', 0))]
        return None

    def node(self, eng, st, ins, b, nf, order):
        x, f = nf
        stage = self.get(st, 'stage')
        if b not in ('load',) and not b.startswith('operator '):
            self.bad(eng, st, ins, 'protocol', 'notify() writes to a registered waiter')
            return [(st, ZERO)]
        self.need(eng, st, ins, self.get(st, 'did'), 'list', 'the waiters are read before they are taken over')
        self.need(eng, st, ins, self.get(st, 'acq'), 'ordering', 'the waiters are read without acquiring what they released')
        self.need(eng, st, ins, stage in ('N0', 'N1'), 'dead waiter', 'a waiter is read after it has been posted (its frame may be gone)')
        if f == self.handle:
            nxt = st.mem.get((('v', 0, '#nxt'),))
            return [(st, ('&', ('glob', '#next' if stage == 'N1' and x == nxt else '#cur')))]
        out = []
        for k in ('null', 'list'):
            for t, v, _ in self.value(eng, st, ins, (k,)):
                eng.store(t, (('v', 0, '#nxt'),), v)
                self.put(t, stage='N1', more=1 if k == 'list' else None)
                out.append((t, v))
        return out

    def on_suspend(self, eng, st, ins, aw):
        self.suspended += 1
        self.need(eng, st, ins, self.get(st, 'reg'), 'lost wakeup', 'the coroutine suspends without being registered')
        self.put(st, reg=None, woken=1)
        return [st]

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        if self.role == 'notify':
            self.need(eng, st, ins, self.get(st, 'did') or self.get(st, 'S') == 'set', 'signal', 'a path through notify() does not set the signal')
            self.need(eng, st, ins, self.get(st, 'stage', 'done') == 'done', 'lost wakeup', 'a waiter is not posted by notify()')
        elif self.role == 'is_set':
            v = self.truthy(eng, st, val)
            self.need(eng, st, ins, v is not None and v == (self.get(st, 'S') == 'set'), 'is_set', 'is_set() does not tell whether the signal is set')
            self.need(eng, st, ins, self.get(st, 'S') != 'set' or not self.get(st, 'rlx'), 'ordering', 'is_set() reports the signal without acquire ordering')
        elif self.role == 'reset':
            S = self.get(st, 'S')
            self.need(eng, st, ins, S == self.get(st, 'end'), 'reset', 'reset() leaves the event set, or throws its waiters away')
        else:
            self.need(eng, st, ins, not self.get(st, 'reg'), 'double resume', 'the wait finishes while it is still registered')
            self.need(eng, st, ins, self.get(st, 'woken') or self.get(st, 'last') == 'set', 'early return', 'wait() returns although the signal is not set')
            self.need(eng, st, ins, self.get(st, 'woken') or not self.get(st, 'rlx'), 'ordering', 'the signal is taken without acquire ordering')


def event_layout(chk):
    q = 'kio::sync::AsyncEvent'
    c = chk.prog.cls(q)
    ow = [f['n'] for f in c['fields'] if 'Worker' in f['t']]
    ss = [f['n'] for f in c['fields'] if 'atomic' in f['t']]
    a = chk.prog.cls(q + '::Awaiter')
    nx = [f['n'] for f in a['fields'] if 'atomic' in f['t'] and 'Awaiter' in f['t']]
    hs = [f['n'] for f in a['fields'] if 'atomic' in f['t'] and ('void' in f['t'] or 'coroutine_handle' in f['t']) and 'Awaiter' not in f['t']]
    if not (len(ow) == len(ss) == len(nx) == len(hs) == 1):
        raise CheckError('AsyncEvent: fields not recognised')
    return (ss[0], nx[0], hs[0]), ow[0]


def check_event(chk):
    fields, owner = event_layout(chk)
    q = 'kio::sync::AsyncEvent::'

    def run(role, f, S=None, root=ROOT, this=THIS, args=None, **kw):
        r = Event(role, fields, owner, root)
        r.sentq = SENT

        def setup(eng, st):
            r.put(st, S=S, **kw)
        chk.run(r, f, this=this, args=args, setup=setup)
        return r
    for f in fns(chk, q + 'notify'):
        for S in ('null', 'set', 'list'):
            run('notify', f, S)
    for f in fns(chk, q + 'is_set'):
        run('is_set', f)
    for f in fns(chk, q + 'reset'):
        for S, e in (('null', 'null'), ('set', 'null'), ('list', 'list')):
            run('reset', f, S, end=e)
    r = run('waiter', one(chk, 'kio_units::wait_event'), root=('*', ('p', 'b')), this=None, args=[('p', 'b')])
    if not r.suspended:
        raise CheckError('AsyncEvent: no suspension seen')
    for f in fns(chk, q + 'AsyncEvent'):
        if f['params'] and 'Worker' in f['params'][0]['t']:
            chk.run(BatonInit(fields[0], owner, ZERO, 'a new event is set'), f, this=THIS, args=[('p', 'owner')])


# ---------------------------------------------------------------- when_any
def tasks_in(v):
    out = []

    def walk(x):
        if isinstance(x, tuple):
            if x[:1] == ('task',) and len(x) > 2:
                if x not in out:
                    out.append(x)
                return
            for y in x:
                walk(y)
    walk(v)
    return out


class Race(Atomics):
    """when_any: every task gets one runner with its own index; the answer is the winner, read after the wait"""
    label = 'when_any'

    def __init__(self, winner, done):
        super().__init__()
        self.winner, self.done = winner, done
        self.spawned = []
        self.answers = 0

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if q == 'kio::sync::when_any' and not self.get(st, 'given'):
            ts = []
            for a in args[1:]:
                v = eng.load(st, eng.loc_of(a)) if a[0] == '&' else a
                ts.append(tasks_in(v)[0][1])
            self.put(st, given=tuple(ts), left=tuple(ts))
            self.worker = args[0]
            return None
        f = self.chk.prog.functions.get(fn.get('id'))
        if f is not None and 'body' in f and f.get('coro') and qn(f.get('rt') or '').endswith('DetachedTask'):
            given, left = self.get(st, 'given', ()), self.get(st, 'left', ())
            self.need(eng, st, ins, not self.get(st, 'waited'), 'every task', 'a task is started after the wait')
            shared = [i for i, p in enumerate(f['params']) if 'shared_ptr<' in p['t'] and '&' not in p['t']]
            tp = [i for i, p in enumerate(f['params']) if 'kio::Task<' in p['t'] and '&' not in p['t']]
            if not self.need(eng, st, ins, len(shared) == 1 and len(tp) == 1, 'ownership', 'the runner of a task does not own the task and a share of the common state'):
                return [(st, ('unk', 'kio::DetachedTask', 0))]
            sv = args[shared[0]]
            if sv[0] == '&' and sv[1][0] == 'v':
                sv = eng.load(st, eng.loc_of(sv))
            self.need(eng, st, ins, self.get(st, 'state') in (None, sv), 'common state', 'the runners do not share one state')
            tv = args[tp[0]]
            if tv[0] == '&':
                tv = eng.load(st, eng.loc_of(tv))
            t = [x[1] for x in tasks_in(tv)]
            ok = len(t) == 1 and t[0] in left
            self.need(eng, st, ins, ok, 'every task', 'a runner does not take over exactly one task that no other runner has')
            if ok:
                self.put(st, left=tuple(x for x in left if x != t[0]))
                k = (f['id'], given.index(t[0]), len(given), shared[0], tp[0])
                if k not in self.spawned:
                    self.spawned.append(k)
            self.put(st, state=sv)
            return [(st, ('unk', 'kio::DetachedTask', 0))]
        if q == 'kio::sync::AsyncBaton::wait':
            ok = obj[0] == '&' and obj[-1] == self.done and ('&',) + obj[1:-1] == self.get(st, 'state')
            self.need(eng, st, ins, ok, 'wait', 'the wait is not for the common state of the runners')
            self.need(eng, st, ins, not self.get(st, 'left'), 'every task', 'a task has no runner when the wait begins')
            return [(st, ('app', 'baton_wait'))]
        if q.startswith('kio::sync::AsyncBaton::wait') and b == 'await_ready':
            self.put(st, waited=1)
            return [(st, ONE)]
        if q.startswith('kio::sync::AsyncBaton::wait') and b == 'await_resume':
            return [(st, ('unk', 'void', 0))]
        if q.endswith('DetachedTask::detach'):
            return [(st, ('unk', 'void', 0))]
        if obj is not None and q.startswith(ATOM) and obj[0] == '&' and obj[-1] == self.winner:
            self.need(eng, st, ins, b == 'load' or b.startswith('operator '), 'winner', 'the winner is changed outside the runners')
            self.need(eng, st, ins, self.get(st, 'waited'), 'winner', 'the winner is read before the wait')
            own = ('&',) + obj[1:-1] == self.get(st, 'state')
            return [(st, ('app', 'winner') if own else ('app', 'other'))]
        return None

    def on_return(self, eng, st, ins, frame, val):
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        v = models.strip(val)
        if v[0] == 'ok':
            v = models.strip(v[1])
        self.answers += 1
        self.need(eng, st, ins, v == ('app', 'winner'), 'answer', 'the answer is not the index the winner recorded')
        self.need(eng, st, ins, not self.get(st, 'left'), 'every task', 'a task is not started')


class Runner(Atomics):
    label = 'when_any'

    def __init__(self, winner, done, index, n, sp, tp):
        super().__init__()
        self.winner, self.done, self.index, self.n, self.sp, self.tp = winner, done, index, n, sp, tp
        self.ends = set()

    def on_await(self, eng, st, ins, val):
        self.need(eng, st, ins, not self.get(st, 'ran'), 'run', 'the task is awaited twice')
        self.put(st, ran=1)
        return [(st, ('unk', 'void', 0))]

    def on_suspend(self, eng, st, ins, aw):
        self.need(eng, st, ins, not self.get(st, 'ran'), 'run', 'the task is awaited twice')
        self.put(st, ran=1)
        return [st]

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if obj is not None and q.startswith(ATOM) and obj[0] == '&' and obj[-1] == self.winner:
            if b == 'load' or b.startswith('operator '):
                if self.get(st, 'won'):
                    return [(st, C(self.index))]
                s = st.copy()
                self.put(s, lost=1)
                return [(st, C(self.n)), (s, ('app', 'earlier winner'))]
            self.need(eng, st, ins, self.get(st, 'ran'), 'first', 'a task claims the race before it has finished')
            if b.startswith('compare_exchange_'):
                loc = eng.loc_of(args[0])
                e = models.strip(eng.load(st, loc))
                self.need(eng, st, ins, e == C(self.n), 'first', 'a later task can overwrite the winner')
                self.need(eng, st, ins, models.strip(args[1]) == C(self.index), 'index', 'a task records an index that is not its own')
                t = st.copy()
                self.put(st, won=1)
                eng.store(t, loc, ('app', 'earlier winner'))
                self.put(t, lost=1)
                out = [(st, ONE), (t, ZERO)]
                return out
            self.bad(eng, st, ins, 'first', 'the winner is recorded without checking that there is none')
            return [(st, C(self.n))]
        if q == 'kio::sync::AsyncBaton::ready' and obj[0] == '&' and obj[-1] == self.done and not self.get(st, 'won'):
            s = st.copy()
            self.put(s, lost=1)
            return [(st, ZERO), (s, ONE)]
        if q == 'kio::sync::AsyncBaton::notify':
            self.need(eng, st, ins, obj[0] == '&' and obj[-1] == self.done, 'notify', 'something else is notified')
            self.need(eng, st, ins, self.get(st, 'won'), 'notify', 'the waiter is notified before the winner is recorded')
            self.put(st, told=1)
            return [(st, ('unk', 'void', 0))]
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        self.need(eng, st, ins, self.get(st, 'ran'), 'run', 'a runner ends without having run its task')
        self.need(eng, st, ins, self.get(st, 'won') or self.get(st, 'lost'), 'first', 'a finished task does not claim the race')
        self.need(eng, st, ins, not self.get(st, 'won') or self.get(st, 'told'), 'notify', 'the winner does not notify the waiter')
        self.ends.add(bool(self.get(st, 'won')))


class RaceState(R):
    label = 'when_any'
    heap_volatile = False
    fast = True

    def __init__(self, winner, done, n):
        self.winner, self.done, self.n = winner, done, n

    def on_call(self, eng, st, ins, fn, obj, args):
        if qn(fn['q']) == 'kio::sync::AsyncBaton::AsyncBaton' and obj is not None and obj[0] == '&' and obj[-1] == self.done:
            st.auto = (('owner', models.strip(args[0]) in (('p', 'w'), ('&', ('*', ('p', 'w'))))),)
            return [(st, ('unk', 'void', 0))]
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how != 'exc':
            self.need(eng, st, ins, models.strip(eng.load(st, (ROOT, self.winner))) == C(self.n), 'initial', 'a new race does not start without a winner')
            self.need(eng, st, ins, dict(st.auto).get('owner'), 'owner', 'the wait of a race does not belong to the worker given')


def check_when_any(chk):
    cs = [c for q, c in chk.prog.classes.items() if qn(q) == 'kio::sync::detail::WhenAnyState']
    cs = cs or [c for q, c in chk.prog.classes.items() if 'when_any.h' in c.get('file', '') and any('AsyncBaton' in f['t'] for f in c['fields'])]
    if not cs:
        raise CheckError('when_any: the state class was not found')
    w = [f['n'] for f in cs[0]['fields'] if 'atomic' in f['t']]
    d = [f['n'] for f in cs[0]['fields'] if 'AsyncBaton' in f['t']]
    if len(w) != 1 or len(d) != 1:
        raise CheckError('when_any: fields of the state not recognised')
    r = Race(w[0], d[0])
    chk.run(r, one(chk, 'kio_units::race'), this=None, args=[('p', 'w')])
    if not r.answers or not r.spawned:
        raise CheckError('when_any: no runner or no answer seen')
    for fid, k, n, sp, tp in r.spawned:
        f = chk.prog.functions[fid]
        rr = Runner(w[0], d[0], k, n, sp, tp)
        chk.run(rr, f, this=None)
    n = r.spawned[0][2]
    for c in cs:
        for f in chk.prog.functions.values():
            if 'body' in f and f.get('cls') == c.get('q') and f.get('kind') == 'ctor' or (qn(f['q']) == 'kio::sync::detail::WhenAnyState::WhenAnyState' and 'body' in f):
                if any('Worker' in p['t'] for p in f['params']):
                    chk.run(RaceState(w[0], d[0], n), f, this=THIS, args=[('p', 'w')])
