"""The worker: operation slots and completions (C23), posting, wake-up and shutdown (C24), the pool of workers (C25)."""
from .common import *
from .uring import THIS, ROOT, W, WA, ghost, sane, plain

POOL = (ROOT, 'op_data_pool_')
FREE = (ROOT, 'free_op_ids')
WAKE = C(U64)
FD = ('init', (ROOT, 'wakeup_fd_'), 0)


def one(chk, name, n=None):
    fs = [f for f in chk.prog.functions.values() if qn(f['q']) == W + name and 'body' in f and (n is None or len(f['params']) == n)]
    if not fs:
        raise CheckError('anchor vanished: Worker::%s' % name)
    return fs


class Wk(R):
    label = 'worker'
    heap_volatile = False
    max_states = 200

    def __init__(self):
        self.n = 0

    def get(self, st, k, d=None):
        return dict(st.auto).get(k, d)

    def put(self, st, **kw):
        d = dict(st.auto)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        st.auto = tuple(sorted(d.items(), key=repr))

    def g(self, eng, st, n):
        return eng.load(st, ghost(n), 'unsigned long')

    def bump(self, eng, st, n, by=ONE):
        eng.store(st, ghost(n), add(self.g(eng, st, n), by))


def at(obj, loc):
    """the object designated by obj is the member loc"""
    return obj is not None and obj[0] == '&' and obj[1:] == loc


# ------------------------------------------------------------------------------------------------ slots
class Slots(Wk):
    """numbers of slots: the free list holds each number that is not in use once, all below the size of the pool"""
    label = 'slots'
    numeric = True
    split_min = True
    nat = (ghost('free'), ghost('pool'), ghost('next'))

    def __init__(self, kind):
        super().__init__()
        self.kind = kind

    def may_throw(self, eng, st, ins, fn):
        return False

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        void = ('unk', 'void', 0)
        if at(obj, FREE):
            n = self.g(eng, st, 'free')
            if b == 'empty':
                return [(st, mk_eq(n))]
            if b == 'size':
                return [(st, n)]
            if b in ('reserve', 'shrink_to_fit', 'capacity'):
                return [(st, void)]
            if b == 'back':
                self.need(eng, st, ins, le(eng, st, ONE, n), 'empty', 'the last free number is read although there may be none')
                self.put(st, read=1)
                return [(st, ('&',) + ghost('id'))]
            if b == 'pop_back':
                self.need(eng, st, ins, le(eng, st, ONE, n), 'empty', 'a free number is removed although there may be none')
                self.need(eng, st, ins, not self.get(st, 'taken'), 'lost', 'a second number is removed from the free list: it is never used again')
                eng.store(st, ghost('free'), sub(n, ONE))
                self.put(st, taken=1)
                return [(st, void)]
            if b in ('push_back', 'emplace_back'):
                v = models.val(eng, st, fn, args, 0)
                if v[0] == '&':
                    v = eng.load(st, eng.loc_of(v))
                if self.kind == 'release':
                    self.need(eng, st, ins, eq(eng, st, v, ('p', 'op_id')), 'number', 'the number that becomes free is not the released one')
                    self.need(eng, st, ins, not self.get(st, 'pushed'), 'twice', 'a released number becomes free twice: two operations share its slot')
                    self.put(st, pushed=1)
                else:
                    self.need(eng, st, ins, eq(eng, st, v, self.g(eng, st, 'next')), 'number', 'the new free numbers are not those of the new slots, each once')
                    self.need(eng, st, ins, le(eng, st, add(v, ONE), self.g(eng, st, 'pool')), 'range', 'a free number lies outside the pool')
                    self.bump(eng, st, 'next')
                self.bump(eng, st, 'free')
                return [(st, void)]
            if b in ('operator[]', 'begin', 'end', 'data', 'at'):
                return None
            self.need(eng, st, ins, b in ('vector', '~vector'), 'list', 'the free list is changed by %s' % b)
            return [(st, void)]
        if at(obj, POOL):
            n = self.g(eng, st, 'pool')
            if b == 'empty':
                return [(st, mk_eq(n))]
            if b == 'size':
                return [(st, n)]
            if b == 'resize':
                v = models.val(eng, st, fn, args, 0)
                self.need(eng, st, ins, eng.numok(v) and le(eng, st, n, v), 'shrink', 'the pool may lose slots that are in use')
                self.need(eng, st, ins, self.kind != 'get' or le(eng, st, v, self.cap), 'cap', 'the pool may grow past its maximum')
                self.need(eng, st, ins, eq(eng, st, n, self.g(eng, st, 'next')), 'gap', 'slots were added without their numbers')
                eng.store(st, ghost('pool'), v)
                self.put(st, size=v)
                return [(st, void)]
            if b in ('reserve', 'shrink_to_fit', 'capacity', 'operator[]', 'at', 'data', 'begin', 'end'):
                return None
            self.need(eng, st, ins, b in ('vector', '~vector'), 'list', 'the pool is changed by %s' % b)
            return [(st, void)]
        if q == W + 'get_op_id' and self.kind == 'release' or q.startswith('kio::alog::'):
            return [(st, void)]
        return None

    cap = ('init', (ROOT, 'config_', 'max_op_slots'), 0)

    def on_exit(self, eng, st, ins, how, val):
        self.n += 1
        if self.kind == 'get':
            if how == 'exc':
                self.need(eng, st, ins, le(eng, st, self.cap, self.g(eng, st, 'pool')), 'refused', 'an operation is refused although the pool may still grow')
                self.need(eng, st, ins, not self.get(st, 'taken'), 'lost', 'a number is lost when the pool is exhausted')
                return
            self.need(eng, st, ins, self.get(st, 'taken') and self.get(st, 'read'), 'taken', 'the number that is handed out stays in the free list')
            self.need(eng, st, ins, val is not None and eq(eng, st, val, self.g(eng, st, 'id')), 'taken', 'the number that is handed out is not the one removed from the free list')
            self.need(eng, st, ins, eq(eng, st, self.g(eng, st, 'next'), self.g(eng, st, 'pool')), 'gap', 'the pool grew by slots whose numbers are not free: they are never used')
        elif self.kind == 'release':
            if how == 'exc':
                return
            inside = eng.truth(st, mk_le(sub(add(('p', 'op_id'), ONE), self.g(eng, st, 'pool'))))
            self.need(eng, st, ins, self.get(st, 'pushed') or inside is False, 'lost', 'a released number does not become free again')
            self.need(eng, st, ins, not self.get(st, 'pushed') or inside is True, 'range', 'a number outside the pool becomes free')
        else:
            if how == 'exc':
                return
            self.need(eng, st, ins, eq(eng, st, self.g(eng, st, 'next'), self.g(eng, st, 'pool')), 'gap', 'not every slot of a new worker has its number in the free list')


def check_slots(chk):
    free, pool, ident = ('app', 'free size'), ('app', 'pool size'), ('app', 'last free')
    for name, kind in (('get_op_id', 'get'), ('release_op_id', 'release'), ('Worker', 'new')):
        for f in one(chk, name, 3 if name == 'Worker' else None):
            r = Slots(kind)

            def setup(eng, st):
                for x in (free, pool, ident, Slots.cap):
                    eng.unsigned.add(x)
                eng.store(st, ghost('free'), ZERO if kind == 'new' else free)
                eng.store(st, ghost('pool'), ZERO if kind == 'new' else pool)
                eng.store(st, ghost('next'), ZERO if kind == 'new' else pool)
                eng.store(st, ghost('id'), ident)
                eng.store(st, ghost('pool0'), ZERO if kind == 'new' else pool)
                st.facts = {**st.facts, mk_le(sub(pool, C(2 ** 48))): True, mk_le(sub(Slots.cap, C(2 ** 48))): True}
            if kind == 'new':
                r.nonzero = True
            chk.run(r, f, this=THIS, setup=setup)
            if not r.n:
                raise CheckError('%s: no exit analysed' % name)
    # the accessors of one slot
    for name in ('init_op_slot', 'get_op_result', 'set_op_result', 'resume_coro_by_id'):
        for f in one(chk, name):
            r = Access(name)
            chk.run(r, f, this=THIS)
            if not r.n:
                raise CheckError('%s: no exit analysed' % name)


class Access(Wk):
    """the accessors use the slot with the given number"""
    label = 'slots'
    SLOT = POOL + (('[]', ('p', 'op_id')),)

    def __init__(self, name):
        super().__init__()
        self.name = name

    def on_store(self, eng, st, ins, loc, v):
        if loc[:1] == (ROOT,):
            self.need(eng, st, ins, loc[:3] == self.SLOT and self.name in ('init_op_slot', 'set_op_result'), 'slot', '%s changes something other than the slot of its operation' % self.name)

    def on_call(self, eng, st, ins, fn, obj, args):
        if base_name(fn['q']) == 'resume' and 'coroutine_handle' in fn['q']:
            ok = obj == ('&',) + self.SLOT + ('handle_',)
            if not ok and obj is not None and obj[0] == '&':
                ok = eng.load(st, eng.loc_of(obj)) == ('init', self.SLOT + ('handle_',), 0)
            self.need(eng, st, ins, ok, 'resume', 'a coroutine is resumed that does not wait for this operation')
            self.put(st, resumed=(self.get(st, 'resumed') or 0) + 1)
            return [(st, ('unk', 'void', 0))]
        return None

    def on_exit(self, eng, st, ins, how, val):
        self.n += 1
        if how != 'ret':
            return
        if self.name == 'init_op_slot':
            self.need(eng, st, ins, eng.load(st, self.SLOT + ('handle_',)) == ('p', 'h'), 'handle', 'the slot does not hold the coroutine that waits')
        elif self.name == 'set_op_result':
            self.need(eng, st, ins, eng.load(st, self.SLOT + ('result',)) == ('p', 'result'), 'result', 'the slot does not hold the result')
        elif self.name == 'get_op_result':
            self.need(eng, st, ins, models.strip(val) == ('init', self.SLOT + ('result',), 0), 'result', 'the answer is not the result in the slot')
        else:
            self.need(eng, st, ins, self.get(st, 'resumed') == 1, 'resume', 'the coroutine is not resumed exactly once')


# ------------------------------------------------------------------------------------------------ completions
KHEAD = ('init', (('*', ('init', (ROOT, 'ring_', 'cq', 'khead'), 0)),), 0)
POPPED = ('app', 'posted coroutine')


class Ring(Wk):
    """entries taken from the submission queue outside of the operations: the read of the wake-up descriptor"""

    def ring_call(self, eng, st, ins, q, fn, args):
        void = ('unk', 'void', 0)
        if q == 'io_uring_get_sqe':
            self.need(eng, st, ins, args[0] == ('&', ROOT, 'ring_'), 'ring', 'the entry is taken from another ring')
            self.need(eng, st, ins, not self.get(st, 'sqe'), 'entry', 'a submission entry is left unprepared')
            s = st.copy()
            self.put(st, sqe='raw', data=None)
            self.put(s, full='again' if self.get(s, 'full') and self.get(s, 'sent') else 'once')
            return [(st, ('&', ('glob', '#sqe'))), (s, ZERO)]
        if q == 'io_uring_prep_read':
            a = [models.val(eng, st, fn, args, i) for i in range(len(args))]
            ok = a[0] == ('&', ('glob', '#sqe')) and self.get(st, 'sqe') and plain(a[1]) == FD and a[2] == ('&', ROOT, 'wakeup_buffer_') and a[3] == C(8)
            self.need(eng, st, ins, ok, 'wake-up read', 'the wake-up read does not read the 8 bytes of the wake-up descriptor into the buffer of the worker')
            self.put(st, sqe='prep')
            return [(st, void)]
        if q in ('io_uring_sqe_set_data64', 'io_uring_sqe_set_data'):
            self.need(eng, st, ins, self.get(st, 'sqe') == 'prep' and models.strip(args[1]) == WAKE, 'wake-up read', 'the wake-up read does not carry the number of the wake-up')
            self.put(st, sqe=None, armed=(self.get(st, 'armed') or 0) + 1, sent=None, full=None)
            return [(st, void)]
        if q in ('io_uring_submit', 'io_uring_submit_and_wait'):
            self.put(st, sent=1)
            return [(st, eng.sym(st, 'submit', ins, 'int'))]
        return None


class Completions(Ring):
    label = 'completions'
    numeric = True
    sep_null = True
    hints = (ZERO, KHEAD)
    max_head = 12

    def head_fact(self, p, b):
        return b or p[0] != 'eq'

    nat = (ghost('seen'), ghost('ack'))

    def slot(self, loc):
        """(number, resumes before the slot was looked up, rest) of a place in a slot"""
        if loc[:2] == POOL and len(loc) > 3 and loc[2][0] == '[]':
            return loc[2][1], loc[3], loc[4:]
        return None

    def cur(self, eng, st):
        return eng.load(st, ghost('id'))

    def is_wake(self, eng, st):
        return eng.truth(st, mk_eq(sub(self.cur(eng, st), WAKE)))

    def finish(self, eng, st, ins):
        """the completion looked at last has been dealt with"""
        s = self.get(st, 'stage')
        if s == 'new':
            w = self.is_wake(eng, st)
            self.need(eng, st, ins, w is True, 'dropped', 'a completion is skipped: its coroutine is never resumed')
            if w is True:
                self.need(eng, st, ins, self.get(st, 'drained'), 'drain', 'not every posted coroutine is resumed at a wake-up')
                self.need(eng, st, ins, self.get(st, 'armed') == 1 or self.get(st, 'stop') and not self.get(st, 'armed'), 're-arm', 'the wake-up read is not submitted again exactly once: later posts do not wake the worker')
        elif s is not None:
            self.need(eng, st, ins, False, 'slot', 'the slot of a completed operation is never released' if s == 'resumed' else 'the coroutine of a completed operation is not resumed')
        self.need(eng, st, ins, not self.get(st, 'popped'), 'posted', 'a posted coroutine is taken from the queue and not resumed')
        self.put(st, stage=None, drained=None, armed=None, stop=None)

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        void = ('unk', 'void', 0)
        r = self.ring_call(eng, st, ins, q, fn, args)
        if r is not None:
            return r
        if q in ('io_uring_cqe_get_data64', 'io_uring_cqe_get_data'):
            c = args[0]
            if self.get(st, 'stage') and eng.load(st, ghost('cqe')) == c:
                return [(st, self.cur(eng, st))]
            self.finish(eng, st, ins)
            h = self.head_of(c)
            ok = h is not None and eq(eng, st, h, add(KHEAD, self.g(eng, st, 'seen')))
            self.need(eng, st, ins, ok, 'order', 'the completion looked at is not the next one: one is skipped or seen twice')
            v = eng.sym(st, 'id', ins, 'unsigned long')
            eng.store(st, ghost('cqe'), c)
            eng.store(st, ghost('id'), v)
            self.bump(eng, st, 'seen')
            self.put(st, stage='new', drained=None, armed=None, stop=None)
            return [(st, v)]
        if q == 'io_uring_cq_advance' or q == 'io_uring_cqe_seen':
            n = ONE if q.endswith('seen') else models.val(eng, st, fn, args, 1)
            s = self.get(st, 'stage')
            self.need(eng, st, ins, not (s == 'new' and self.is_wake(eng, st) is not True), 'early', 'a completion is given back before its result is read')
            self.need(eng, st, ins, args[0] == ('&', ROOT, 'ring_'), 'ring', 'the completions of another ring are given back')
            self.bump(eng, st, 'ack', n)
            self.need(eng, st, ins, le(eng, st, self.g(eng, st, 'ack'), self.g(eng, st, 'seen')), 'count', 'more completions are given back than were dealt with')
            return [(st, void)]
        if 'MPSCQueue' in fn['q'] and b == 'try_pop':
            self.need(eng, st, ins, at(obj, (ROOT, 'task_queue_')), 'queue', 'the queue is not the one of this worker')
            self.need(eng, st, ins, not self.get(st, 'popped'), 'posted', 'a posted coroutine is taken from the queue and not resumed')
            s = st.copy()
            eng.store(st, eng.loc_of(args[0]), POPPED)
            self.put(st, popped=1, drained=None)
            self.put(s, drained=1)
            return [(st, ONE), (s, ZERO)]
        if b in ('resume', 'operator()') and 'coroutine_handle' in fn['q']:
            return self.resume(eng, st, ins, obj)
        if b == 'stop_requested' and ('stop_token' in fn['q'] or 'stop_source' in fn['q']):
            s = st.copy()
            self.put(st, stop=1)
            self.put(s, stop=None)
            return [(st, ONE), (s, ZERO)]
        if at(obj, POOL):
            if b in ('operator[]', 'at'):
                i = models.val(eng, st, fn, args, 0)
                k = 1 if self.get(st, 'stage') in ('resumed', None) else 0
                return [(st, ('&',) + POOL + (('[]', i), ('at', k)))]
            if b == 'size':
                n = ('app', 'pool size')
                i = self.cur(eng, st)
                if self.get(st, 'stage') in ('set', 'resumed') and eng.numok(i):
                    # the kernel returns only numbers that were submitted
                    st.facts = {**st.facts, mk_le(sub(add(i, ONE), n)): True}
                return [(st, n)]
        if at(obj, FREE):
            if b in ('push_back', 'emplace_back'):
                v = models.val(eng, st, fn, args, 0)
                if v[0] == '&':
                    v = eng.load(st, eng.loc_of(v))
                s = self.get(st, 'stage')
                self.need(eng, st, ins, eq(eng, st, v, self.cur(eng, st)), 'slot', 'the slot that becomes free is not the one of the completed operation')
                self.need(eng, st, ins, s == 'resumed', 'slot', 'a slot becomes free before its coroutine has read the result' if s else 'a slot becomes free twice')
                self.put(st, stage=None, drained=None, armed=None, stop=None)
                return [(st, void)]
            self.need(eng, st, ins, b in ('size', 'empty', 'reserve'), 'slot', 'the free list is changed by %s' % b)
        if q.startswith('kio::alog::'):
            return [(st, void)]
        return None

    def head_of(self, c):
        """the position in the ring whose entry has address c"""
        out = []

        def walk(t):
            if isinstance(t, tuple):
                if len(t) == 4 and t[:2] == ('app', '&') and any('ring_mask' in repr(x) for x in t[2:]):
                    out.append([x for x in t[2:] if 'ring_mask' not in repr(x)][0])
                    return
                for x in t:
                    walk(x)
        walk(c)
        return out[0] if len(out) == 1 else None

    def resume(self, eng, st, ins, obj):
        void = ('unk', 'void', 0)
        loc = eng.loc_of(obj) if obj is not None and obj[0] == '&' else None
        v = eng.load(st, loc) if loc is not None else None
        if v == POPPED:
            self.need(eng, st, ins, self.get(st, 'popped'), 'posted', 'a posted coroutine is resumed twice')
            self.put(st, popped=None)
            return [(st, void)]
        src = v[1] if v is not None and v[0] == 'init' else loc
        s = self.slot(src) if src is not None else None
        ok = s is not None and eq(eng, st, s[0], self.cur(eng, st)) and s[2] == ('handle_',)
        self.need(eng, st, ins, ok, 'resume', 'the resumed coroutine is neither posted nor the one that waits for the completed operation')
        stage = self.get(st, 'stage')
        self.need(eng, st, ins, stage == 'set', 'resume', 'the coroutine is resumed before its result is in the slot' if stage == 'new' else 'the coroutine of an operation is resumed twice, or after its slot was released')
        self.need(eng, st, ins, self.is_wake(eng, st) is False, 'wake-up', 'the completion of the wake-up is taken for an operation')
        self.put(st, stage='resumed')
        return [(st, void)]

    def on_store(self, eng, st, ins, loc, v):
        s = self.slot(loc)
        if s is None:
            return
        stage = self.get(st, 'stage')
        if stage == 'resumed':
            self.need(eng, st, ins, s[1] != ('at', 0), 'moved slot', 'a slot is used through a reference from before the coroutine ran, which may have moved the pool')
            self.need(eng, st, ins, eq(eng, st, s[0], self.cur(eng, st)), 'slot', 'the slot of another operation is changed')
            return
        if s[2] == ('result',):
            self.need(eng, st, ins, eq(eng, st, s[0], self.cur(eng, st)) and stage in ('new', 'set'), 'slot', 'the result is put into the slot of another operation')
            want = eng.load(st, eng.loc_of(eng.load(st, ghost('cqe'))) + ('res',))
            self.need(eng, st, ins, plain(models.strip(v)) == want, 'result', 'the result in the slot is not the one of the completion')
            self.need(eng, st, ins, self.is_wake(eng, st) is False, 'wake-up', 'the completion of the wake-up is taken for an operation')
            self.put(st, stage='set')
            return
        self.need(eng, st, ins, False, 'slot', 'the slot of an operation that has not been resumed is changed')

    def on_exit(self, eng, st, ins, how, val):
        self.n += 1
        if how != 'ret':
            return
        if self.get(st, 'stage') is not None:
            self.finish(eng, st, ins)
        self.need(eng, st, ins, eq(eng, st, self.g(eng, st, 'seen'), self.g(eng, st, 'ack')), 'count', 'not every completion that was dealt with is given back: it would be dealt with again')


class Arm(Ring):
    label = 'completions'

    def on_call(self, eng, st, ins, fn, obj, args):
        return self.ring_call(eng, st, ins, qn(fn['q']), fn, args)

    def on_exit(self, eng, st, ins, how, val):
        self.n += 1
        if how == 'ret':
            self.need(eng, st, ins, self.get(st, 'armed') == 1 and not self.get(st, 'sqe'), 're-arm', 'the wake-up read is not prepared exactly once')
        else:
            self.need(eng, st, ins, self.get(st, 'full') == 'again', 'full', 'the worker gives up although a submission may make room for the wake-up read')


class Init(Ring):
    label = 'completions'

    def on_call(self, eng, st, ins, fn, obj, args):
        q = qn(fn['q'])
        if q.startswith('io_uring_queue_init'):
            if q.endswith('_params') and args[2][0] == '&':
                w = eng.load(st, eng.loc_of(args[2]) + ('flags',))
                self.need(eng, st, ins, w[0] != 'c' or not w[1] & (1 << 10 | 1 << 11), 'ring', 'the ring has entries of another size than those the worker reads')
            s = st.copy()
            self.put(s, failed=1)
            v = eng.sym(s, 'init', ins, 'int')
            s.facts = {**s.facts, mk_le(add(v, ONE)): True}
            return [(st, ZERO), (s, v)]
        return self.ring_call(eng, st, ins, q, fn, args)

    def on_exit(self, eng, st, ins, how, val):
        self.n += 1
        if how == 'ret':
            self.need(eng, st, ins, not self.get(st, 'failed'), 'ring', 'a worker without a ring goes on')
            self.need(eng, st, ins, self.get(st, 'armed') == 1 and self.get(st, 'sent'), 're-arm', 'a worker starts without a wake-up read under way')
        elif self.get(st, 'failed'):
            fd = eng.load(st, (ROOT, 'ring_', 'ring_fd'))
            self.need(eng, st, ins, fd == C(-1), 'ring', 'a ring that was not made is closed later: it has the descriptor of something else')


def check_completions(chk):
    for name, cls in (('process_completions', Completions), ('submit_wakeup_read', Arm), ('initialize', Init)):
        for f in one(chk, name):
            r = cls()

            def setup(eng, st):
                for x in ('seen', 'ack'):
                    eng.store(st, ghost(x), ZERO)
                for l in (ghost('cqe'), ghost('id')):
                    eng.store(st, l, ('unk', 'none', 0))
                # completions of the usual size: initialize does not ask for others
                eng.store(st, (ROOT, 'ring_', 'flags'), ZERO)
            chk.run(r, f, this=THIS, setup=setup)
            if not r.n:
                raise CheckError('%s: no exit analysed' % name)


# ------------------------------------------------------------------------------------------------ posting, wake-up and shutdown
OWN = (ROOT, 'task_queue_')
THREAD, STOPPED, SOURCE, TOKEN = (ROOT, 'thread_id_'), (ROOT, 'stopped_'), (ROOT, 'stop_source_'), (ROOT, 'stop_token_')
VOID = ('unk', 'void', 0)
TRANSIENT = dict(ETIME=62, ETIMEDOUT=110, EINTR=4, EAGAIN=11, EBUSY=16)
FATAL = dict(EBADF=9, EINVAL=22, EFAULT=14, ENXIO=6, ENOMEM=12)


class Post(Wk):
    """Worker::post: the coroutine is in the queue before the worker is woken"""
    label = 'post'

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if 'MPSCQueue' in fn['q'] and b == 'try_push':
            v = models.val(eng, st, fn, args, 0)
            self.need(eng, st, ins, at(obj, OWN) and v == ('p', 'h'), 'queue', 'something other than the coroutine is queued, or not with this worker')
            self.need(eng, st, ins, not self.get(st, 'pushed'), 'twice', 'a coroutine is queued twice: it would be resumed twice')
            s = st.copy()
            self.put(st, pushed=1)
            self.put(s, full=1)
            return [(st, ONE), (s, ZERO)]
        if q == 'write':
            a = [models.val(eng, st, fn, args, i) for i in range(len(args))]
            v = eng.load(st, eng.loc_of(a[1])) if a[1][0] == '&' else a[1]
            self.need(eng, st, ins, plain(a[0]) == FD, 'wake-up', 'something other than the wake-up descriptor is written')
            self.need(eng, st, ins, a[2] == C(8) and v[0] == 'c' and v[1] % 2 ** 64 not in (0, 2 ** 64 - 1), 'wake-up', 'the 8 bytes written do not wake the worker')
            self.need(eng, st, ins, self.wake_ok(st), 'order', self.wake_why)
            self.put(st, woken=1)
            r = eng.sym(st, 'write', ins, 'long')
            return [(st, r)]
        if q == W + 'check_syscall_return' or q.startswith('kio::alog::'):
            return [(st, VOID)]
        return None

    wake_why = 'the worker is woken before the coroutine is queued: it may look at the queue too early and then sleep'

    def wake_ok(self, st):
        return bool(self.get(st, 'pushed'))

    def on_exit(self, eng, st, ins, how, val):
        self.n += 1
        if how != 'ret':
            return
        if self.get(st, 'full') and not self.get(st, 'pushed'):
            self.need(eng, st, ins, False, 'dropped', 'a coroutine that is posted to a full queue is dropped: it is never resumed', key='Worker::post|full queue')
        else:
            self.need(eng, st, ins, self.get(st, 'pushed'), 'dropped', 'a posted coroutine is not queued: it is never resumed')
        self.need(eng, st, ins, self.get(st, 'woken') or not self.get(st, 'pushed'), 'wake-up', 'a coroutine is queued and the worker is not woken')


class Stop(Post):
    """Worker::request_stop: the stop is visible before the wake-up, later calls do nothing"""
    wake_why = 'the worker is woken before the stop is requested: it may look too early and then sleep for ever'

    def wake_ok(self, st):
        return bool(self.get(st, 'stop'))

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if at(obj, STOPPED) and 'atomic' in q:
            if b in ('exchange', 'test_and_set'):
                self.need(eng, st, ins, b != 'exchange' or args[0] != ZERO, 'mark', 'the mark of the stop is taken away')
                s = st.copy()
                self.put(st, first=0)
                self.put(s, first=1)
                return [(st, ONE), (s, ZERO)]
            if b.startswith('compare_exchange'):
                s = st.copy()
                self.put(st, first=0)
                eng.store(st, eng.loc_of(args[0]), ONE)
                self.put(s, first=1)
                return [(st, ZERO), (s, ONE)]
        if b == 'request_stop' and 'stop_source' in q:
            self.need(eng, st, ins, at(obj, SOURCE), 'source', 'the stop of something else is requested')
            self.put(st, stop=1)
            return [(st, ONE)]
        if q in ('abort', 'std::abort', 'std::terminate', '__assert_fail'):
            return []
        return super().on_call(eng, st, ins, fn, obj, args)

    def on_exit(self, eng, st, ins, how, val):
        self.n += 1
        if how != 'ret':
            return
        first = self.get(st, 'first')
        self.need(eng, st, ins, first == 0 or self.get(st, 'stop'), 'stop', 'the first request does not stop the worker')
        self.need(eng, st, ins, first == 0 or self.get(st, 'woken'), 'wake-up', 'the worker is not woken to see that it shall stop')


class Loop(Wk):
    """Worker::loop: waits and handles completions until a stop is requested"""
    label = 'loop'

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if q.startswith('io_uring_submit'):
            self.need(eng, st, ins, args[0] == ('&', ROOT, 'ring_'), 'ring', 'the submissions of another ring are sent')
            self.put(st, sent=1)
            return [(st, eng.sym(st, 'sub', ins, 'int'))]
        if q == W + 'check_syscall_return':
            self.put(st, checked=1)
            return [(st, VOID)]
        if q == W + 'process_completions':
            self.put(st, done=1)
            return [(st, VOID)]
        if b == 'stop_requested' and ('stop_token' in q or 'stop_source' in q):
            self.need(eng, st, ins, obj in (('&',) + TOKEN, ('&',) + SOURCE), 'token', 'the stop of something else is looked at')
            if self.get(st, 'looked'):
                self.need(eng, st, ins, self.get(st, 'sent'), 'submit', 'the prepared operations are not submitted in every round')
                self.need(eng, st, ins, self.get(st, 'done'), 'completions', 'the completions are not handled in every round')
            s = st.copy()
            self.put(st, looked=1, stop=1, sent=None, done=None)
            self.put(s, looked=1, stop=None, sent=None, done=None)
            return [(st, ONE), (s, ZERO)]
        if q.startswith('kio::alog::'):
            return [(st, VOID)]
        return None

    def on_exit(self, eng, st, ins, how, val):
        self.n += 1
        if how == 'ret':
            self.need(eng, st, ins, self.get(st, 'stop'), 'stop', 'the loop ends although no stop was requested')


class Forever(Wk):
    """Worker::loop_forever: order of the start, and the signals of start and end on every way out"""
    label = 'lifetime'
    LATCHES = {(ROOT, 'init_latch_'): 'init', (ROOT, 'shutdown_latch_'): 'end'}
    STAGES = {W + 'check_kernel_version': None, W + 'initialize': 'ring', W + 'loop': 'loop', W + 'drain_completions': 'drain', W + 'process_completions': 'drain'}

    def alive(self, eng, st, ins):
        self.need(eng, st, ins, not self.get(st, 'gone'), 'after the end', 'the worker is used after its end was signalled: whoever waited may have destroyed it')

    def on_load(self, eng, st, ins, loc, val):
        if loc[:1] == (ROOT,):
            self.alive(eng, st, ins)

    def on_store(self, eng, st, ins, loc, v):
        if loc[:1] == (ROOT,):
            self.alive(eng, st, ins)
        if loc == THREAD:
            self.need(eng, st, ins, v == ('app', 'me'), 'thread', 'the worker does not hold the id of the thread that runs it')
            self.put(st, me=1)
        if loc == TOKEN or loc[:2] == TOKEN:
            self.put(st, token=1 if v == ('app', 'token') or 'token' in repr(v) else None)

    def may_throw(self, eng, st, ins, fn):
        return qn(fn['q']) in self.STAGES or qn(fn['q']) == 'std::function::operator()'

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if obj is not None and obj[:2] == ('&', ROOT):
            self.alive(eng, st, ins)
        if q in self.STAGES:
            s = self.STAGES[q]
            if s == 'ring':
                self.need(eng, st, ins, self.get(st, 'me'), 'thread', 'the ring is made before the worker knows its thread')
            if s == 'loop':
                self.need(eng, st, ins, self.get(st, 'ring'), 'order', 'the loop runs without a ring')
                self.need(eng, st, ins, self.get(st, 'token'), 'token', 'the loop runs without the stop token of the worker: no stop reaches it')
            if s is not None:
                self.put(st, **{s: 1})
            return [(st, VOID)]
        if b == 'get_id' and 'this_thread' in q:
            return [(st, ('app', 'me'))]
        if q == W + 'get_stop_token' or b == 'get_token' and 'stop_source' in q:
            return [(st, ('app', 'token'))]
        if b == 'operator=' and 'stop_token' in q and at(obj, TOKEN):
            v = args[0]
            v = eng.load(st, eng.loc_of(v)) if v[0] == '&' else v
            self.put(st, token=1 if v == ('app', 'token') else None)
            return [(st, obj)]
        if at(obj, THREAD) and b in ('store', 'operator='):
            v = models.val(eng, st, fn, args, 0)
            self.on_store(eng, st, ins, THREAD, v)
            return [(st, VOID)]
        if b == 'latch' or obj is None or obj[0] != '&' or obj[1:] not in self.LATCHES:
            if q == 'std::function::operator bool':
                s = st.copy()
                return [(st, ONE), (s, ZERO)]
            if q == 'std::function::operator()':
                self.need(eng, st, ins, self.get(st, 'ring'), 'order', 'the start callback runs without a ring')
                return [(st, VOID)]
            if q.startswith('kio::alog::'):
                return [(st, VOID)]
            return None
        n = self.LATCHES[obj[1:]]
        if b == 'try_wait':
            return [(st, ONE if self.get(st, n) else ZERO)]
        if b in ('count_down', 'arrive_and_wait'):
            self.need(eng, st, ins, not self.get(st, n), 'latch', 'a latch is counted below zero')
            if n == 'init' and not self.get(st, 'failed'):
                self.need(eng, st, ins, self.get(st, 'ring') and self.get(st, 'me'), 'early', 'the worker is said to be ready before its ring and thread id are set')
            if n == 'end' and not self.get(st, 'failed'):
                self.need(eng, st, ins, self.get(st, 'loop'), 'early', 'the end is signalled before the loop has ended')
            self.put(st, **{n: 1})
            if n == 'end':
                self.put(st, gone=1)
            return [(st, VOID)]
        return None

    def on_catch(self, eng, st, ins):
        self.put(st, failed=1)

    def on_exit(self, eng, st, ins, how, val):
        self.n += 1
        if how != 'ret' and not self.get(st, 'failed'):
            # something that is not an exception class: the program ends
            return
        self.need(eng, st, ins, self.get(st, 'init'), 'ready', 'a thread that waits for the start of the worker waits for ever')
        self.need(eng, st, ins, self.get(st, 'end'), 'end', 'a thread that waits for the end of the worker waits for ever')


class Small(Wk):
    """the thread test, the switch to a worker, the classification of results, the destructor and the constructor"""
    label = 'worker'
    numeric = True

    def __init__(self, name):
        super().__init__()
        self.name = name

    def may_throw(self, eng, st, ins, fn):
        return False

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if b == 'get_id' and 'this_thread' in q:
            return [(st, ('app', 'me'))]
        if at(obj, THREAD) and 'atomic' in q and (b == 'load' or b.startswith('operator ')):
            return [(st, ('app', 'mine'))]
        if b == 'operator==' and 'thread::id' in ''.join(fn.get('pt') or []):
            v = [eng.load(st, eng.loc_of(a)) if a[0] == '&' else a for a in ([obj] if obj is not None else []) + list(args)]
            if sorted(map(repr, v)) == sorted(map(repr, [('app', 'me'), ('app', 'mine')])):
                return [(st, ('app', 'on thread'))]
            return None
        if q == W + 'is_on_worker_thread' and self.name != 'is_on_worker_thread':
            return [(st, ('app', 'on thread'))] if self.worker(eng, st, obj) else None
        if q in (WA + 'post', W + 'post') and self.name == 'await_suspend':
            a = ([obj] if obj is not None else []) + list(args)
            self.need(eng, st, ins, self.worker(eng, st, a[0]) and models.strip(a[1]) == ('p', 'h'), 'switch', 'the switch posts something other than the coroutine, or to another worker')
            self.need(eng, st, ins, not self.get(st, 'posted'), 'switch', 'the coroutine is posted twice')
            self.put(st, posted=1)
            return [(st, VOID)]
        if q == 'io_uring_queue_exit':
            self.need(eng, st, ins, args[0] == ('&', ROOT, 'ring_') and not self.get(st, 'ring'), 'close', 'the ring is closed twice, or another one')
            fd = ('init', (ROOT, 'ring_', 'ring_fd'), 0)
            self.need(eng, st, ins, eng.truth(st, mk_le(scale(fd, -1))) is True, 'close', 'a ring that was never made is closed: descriptor 0 or another one goes with it')
            self.put(st, ring=1)
            return [(st, VOID)]
        if q == 'close':
            self.need(eng, st, ins, plain(models.val(eng, st, fn, args, 0)) == FD and not self.get(st, 'fd'), 'close', 'a descriptor that is not the wake-up descriptor is closed, or it is closed twice')
            self.put(st, fd=1)
            return [(st, ZERO)]
        if q == 'eventfd':
            s = st.copy()
            v = eng.sym(st, 'eventfd', ins, 'int')
            st.facts = {**st.facts, mk_le(scale(v, -1)): True}
            self.put(s, nofd=1)
            self.need(eng, st, ins, args[0][0] == 'c' and (args[1][0] != 'c' or args[1][1] & 0x800), 'eventfd', 'a write to the wake-up descriptor may block the thread that posts')
            return [(st, v), (s, C(-1))]
        if q.startswith('kio::alog::'):
            return [(st, VOID)]
        if self.name == 'check_syscall_return' and b == 'system_error':
            self.thrown(eng, st, ins, args)
        return None

    def worker(self, eng, st, a):
        if a is None:
            return False
        if self.name.startswith('await') and a == ('init', (ROOT, 'worker_'), 0):
            return True
        if a[0] == '&':
            return a in (('&', ('*', ('init', (ROOT, 'worker_'), 0))), ('&', ROOT, 'worker_')) and self.name.startswith('await') or a == THIS
        return False

    def thrown(self, eng, st, ins, args):
        v = args[0]
        self.need(eng, st, ins, eng.numok(plain(v)) and eq(eng, st, plain(v), scale(('p', 'ret'), -1)), 'code', 'the exception does not carry the error number of the kernel')

    def on_exit(self, eng, st, ins, how, val):
        self.n += 1
        n = self.name
        if n in ('is_on_worker_thread', 'await_ready'):
            self.need(eng, st, ins, models.strip(val) == ('app', 'on thread'), 'thread', 'the answer is not whether the caller runs on the thread of the worker')
        elif n == 'await_suspend':
            self.need(eng, st, ins, self.get(st, 'posted'), 'switch', 'a coroutine that switches to a worker is not posted to it')
            self.need(eng, st, ins, val is None or val[0] == 'unk' or val == ONE, 'switch', 'a posted coroutine does not suspend: it runs on two threads')
        elif n == 'check_syscall_return':
            r = ('p', 'ret')
            bad = TRANSIENT if how == 'exc' else FATAL
            for e, v in sorted(bad.items()):
                ruled = eng.truth(st, mk_eq(add(r, C(v)))) is False or eng.truth(st, mk_le(scale(r, -1))) is True and how != 'exc'
                self.need(eng, st, ins, ruled, e, ('a worker ends at the harmless result -%s' if how == 'exc' else 'a worker goes on after the fatal result -%s') % e)
            if how == 'exc':
                self.need(eng, st, ins, eng.truth(st, mk_le(scale(r, -1))) is False, 'ok', 'a result that is no error ends the worker')
        elif n == '~Worker':
            for w, loc, what in (('ring', (ROOT, 'ring_', 'ring_fd'), 'ring'), ('fd', (ROOT, 'wakeup_fd_'), 'wake-up descriptor')):
                v = ('init', loc, 0)
                self.need(eng, st, ins, self.get(st, w) or eng.truth(st, mk_le(scale(v, -1))) is False, 'leak', 'the %s of a destroyed worker stays open' % what)
        elif n == 'Worker' and how == 'ret':
            self.need(eng, st, ins, not self.get(st, 'nofd'), 'eventfd', 'a worker without a wake-up descriptor is made')
            fd = eng.load(st, (ROOT, 'ring_', 'ring_fd'))
            self.need(eng, st, ins, fd == C(-1), 'ring', 'a worker that never ran closes descriptor 0')


def check_post(chk):
    def run(cls, name, n=None, **kw):
        for f in one(chk, name, n):
            r = cls(*kw.get('a', ()))
            chk.run(r, f, this=THIS, facts=kw.get('facts'))
            if not r.n:
                raise CheckError('%s: no exit analysed' % name)
    run(Post, 'post')
    run(Stop, 'request_stop')
    run(Loop, 'loop')
    run(Forever, 'loop_forever')
    run(Small, 'is_on_worker_thread', a=('is_on_worker_thread',))
    run(Small, 'check_syscall_return', a=('check_syscall_return',))
    run(Small, '~Worker', a=('~Worker',))
    run(Small, 'Worker', 3, a=('Worker',))
    for m in ('await_ready', 'await_suspend'):
        fs = [f for f in chk.prog.functions.values() if qn(f['q']) == 'kio::io::SwitchToWorker::' + m and 'body' in f]
        if not fs:
            raise CheckError('anchor vanished: SwitchToWorker::%s' % m)
        r = Small(m)
        chk.run(r, fs[0], this=THIS)
        if not r.n:
            raise CheckError('%s: no exit analysed' % m)
