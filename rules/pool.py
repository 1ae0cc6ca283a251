"""The pool of workers (C25)."""
from .common import *
from .worker import Wk, VOID, at
from .uring import THIS, ROOT, ghost, plain

P = 'kio::io::IOPool::'
WORKERS, THREADS, STOPPED = (ROOT, 'workers_'), (ROOT, 'worker_threads_'), (ROOT, 'stopped_')
SIZE = ('app', 'workers size')
KINDS = ('made', 'thread', 'ready', 'stop', 'wait')
WK = 'kio::io::Worker::'


def pool(chk, name):
    fs = [f for f in chk.prog.functions.values() if qn(f['q']) == P + name and 'body' in f and not f.get('lambda')]
    if not fs:
        raise CheckError('anchor vanished: IOPool::%s' % name)
    return fs


class Pool(Wk):
    """what is done to each worker of the pool: by position with a counter, or element by element of a range"""
    label = 'pool'
    numeric = True
    heap_volatile = False
    nat = tuple(ghost(k) for k in KINDS) + (ghost('size'),)
    hints = (ZERO,)

    def __init__(self, name):
        super().__init__()
        self.name = name
        self.loops = {}
        self.started = []

    def may_throw(self, eng, st, ins, fn):
        return False

    def size(self, eng, st):
        return self.g(eng, st, 'size')

    def elem(self, eng, st, v):
        """('el', symbol) or ('ix', position) of the worker that v points at, refers to or owns"""
        for m in subterms(v):
            if m[:1] == ('sym',) and m in eng.info and eng.info[m][0] == 'elem' and self.of_workers(eng.info[m][1]):
                return ('el', m)
        for m in subterms(v):
            if isinstance(m, tuple) and m[:2] == ('&', ROOT) and m[2:3] == ('workers_',) and len(m) > 3 and m[3][0] == '[]':
                return ('ix', m[3][1])
            if isinstance(m, tuple) and m[:2] == WORKERS and len(m) > 2 and isinstance(m[2], tuple) and m[2][0] == '[]':
                return ('ix', m[2][1])
        return None

    def of_workers(self, cont):
        return mentions(cont, 'workers_') or cont == ('&',) + WORKERS or 'workers_' in repr(cont)

    def event(self, eng, st, ins, kind, v):
        e = self.elem(eng, st, v)
        self.need(eng, st, ins, e is not None, kind, 'what is done here is not done to a worker of the pool')
        if e is None:
            return None
        if e[0] == 'el':
            done = set(self.get(st, 'done') or ())
            self.need(eng, st, ins, e[1] == self.get(st, 'el') and kind not in done, 'twice', 'a worker gets this twice, another one not at all')
            self.put(st, done=tuple(sorted(done | {kind})))
        else:
            n = self.g(eng, st, kind)
            self.need(eng, st, ins, eng.numok(e[1]) and eq(eng, st, e[1], n), 'twice', 'a worker gets this twice, another one not at all')
            self.bump(eng, st, kind)
        return e

    def all(self, eng, st, kind):
        return kind in (self.get(st, 'all') or ()) or eq(eng, st, self.g(eng, st, kind), self.size(eng, st))

    def had(self, eng, st, kind, v):
        """was this done to the worker v, or to all?"""
        e = self.elem(eng, st, v)
        if self.all(eng, st, kind) or e is None:
            return self.all(eng, st, kind)
        if e[0] == 'el':
            return kind in (self.get(st, 'done') or ())
        return eng.numok(e[1]) and le(eng, st, add(e[1], ONE), self.g(eng, st, kind))

    def close(self, eng, st):
        if self.get(st, 'el') is not None:
            d = set(self.get(st, 'done') or ())
            self.put(st, every=tuple(sorted(d if self.get(st, 'every') is None else d & set(self.get(st, 'every')))))
        self.put(st, el=None, done=None)

    def on_more(self, eng, st, ins, cont, sym):
        if self.of_workers(cont):
            self.close(eng, st)
            self.loops[sym] = 1

    def on_elem(self, eng, st, ins, cont, sym):
        if self.of_workers(cont):
            self.put(st, el=sym, done=())

    def on_branch(self, eng, st, ins, pred, taken):
        for m in subterms(pred):
            if m in self.loops and eng.truth(st, mk_eq(m)) is True:
                # the end of a walk over all workers
                e = self.get(st, 'every')
                old = set(self.get(st, 'all') or ())
                self.put(st, all=tuple(sorted(old | (set(e) if e is not None else set(KINDS)))), every=None)
                if e is None and not self.get(st, 'none'):
                    return None
        return None

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if q == P + 'stop' and self.name != 'stop':
            return None
        if at(obj, WORKERS):
            if b == 'size':
                return [(st, self.size(eng, st))]
            if b == 'empty':
                return [(st, mk_eq(self.size(eng, st)))]
            if b in ('begin', 'cbegin'):
                return [(st, ZERO)]
            if b in ('end', 'cend'):
                return [(st, self.size(eng, st))]
            if b in ('emplace_back', 'push_back'):
                v = models.val(eng, st, fn, args, 0) if args else VOID
                self.need(eng, st, ins, v == ('app', 'new worker'), 'made', 'something other than a new worker is added to the pool')
                self.bump(eng, st, 'size')
                return [(st, VOID)]
            if b == 'reserve':
                return [(st, VOID)]
            if b in ('clear', 'pop_back', 'erase', 'resize'):
                self.need(eng, st, ins, self.get(st, 'joined'), 'destroyed', 'workers are destroyed while their threads run')
                return [(st, VOID)]
            return None
        if '__normal_iterator' in q or q.startswith('__gnu_cxx::operator'):
            # iterators into the workers are positions
            v = [eng.load(st, eng.loc_of(a)) if a[0] == '&' else a for a in ([obj] if obj is not None else []) + list(args)]
            if v and all(eng.numok(x) for x in v):
                if b in ('operator*', 'operator->'):
                    return [(st, ('&',) + WORKERS + (('[]', v[0]),))]
                if b == 'operator++':
                    eng.store(st, eng.loc_of(obj), add(v[0], ONE))
                    return [(st, obj)]
                if b in ('operator==', 'operator!='):
                    e = mk_eq(sub(v[0], v[1]))
                    return [(st, e if b[-2] == "=" else ("not", e))]
        if q.startswith('std::make_unique') or q.startswith('std::make_unique<'):
            i = models.val(eng, st, fn, args, 0)
            n = self.g(eng, st, 'made')
            self.need(eng, st, ins, eng.numok(i) and eq(eng, st, i, n), 'id', 'a worker gets a number that is not its position')
            c = models.val(eng, st, fn, args, 1) if len(args) > 1 else None
            self.need(eng, st, ins, len(args) == 3 and 'config' in repr(args[1]) and 'worker_init' in repr(args[2]), 'config', 'a worker is made without the configuration and the callback of the pool')
            self.bump(eng, st, 'made')
            return [(st, ('app', 'new worker'))]
        if at(obj, THREADS):
            if b in ('emplace_back', 'push_back'):
                v = args[0]
                cl = v if v[0] == 'closure' else eng.load(st, eng.loc_of(v)) if v[0] == '&' else v
                self.need(eng, st, ins, cl[0] == 'closure', 'thread', 'a thread runs something other than a worker of the pool')
                if cl[0] == 'closure':
                    self.event(eng, st, ins, 'thread', ('app', 'x') + tuple(self.captured(eng, st, cl)))
                    self.started.append(cl)
                return [(st, VOID)]
            if b == 'clear':
                self.joining(eng, st, ins)
                self.put(st, joined=1)
                return [(st, VOID)]
            if b in ('reserve', 'size', 'empty'):
                return [(st, VOID if b == 'reserve' else ('app', 'threads'))]
            return None
        if b == 'join' and 'thread' in q:
            self.joining(eng, st, ins)
            self.put(st, joined=1)
            return [(st, VOID)]
        if at(obj, STOPPED) and 'atomic' in q:
            if b in ('exchange', 'test_and_set'):
                s = st.copy()
                self.put(st, first=0)
                self.put(s, first=1)
                return [(st, ONE), (s, ZERO)]
            if b.startswith('compare_exchange'):
                s = st.copy()
                self.put(st, first=0)
                eng.store(st, eng.loc_of(args[0]), ONE)
                self.put(s, first=1)
                return [(st, ZERO), (s, ONE)]
        if 'unique_ptr' in q and b == 'operator bool':
            return [(st, ONE)]
        if 'unique_ptr' in q and b in ('operator->', 'get') and self.elem(eng, st, obj) is not None:
            return [(st, obj)]
        if 'unique_ptr' in q and b == 'operator*' and self.elem(eng, st, obj) is not None:
            return [(st, obj)]
        if q == WK + 'wait_ready':
            self.need(eng, st, ins, self.had(eng, st, 'thread', obj), 'order', 'the pool waits for a worker that has no thread')
            self.event(eng, st, ins, 'ready', obj)
            return [(st, VOID)]
        if q == WK + 'request_stop':
            self.event(eng, st, ins, 'stop', obj)
            return [(st, eng.sym(st, 'stopped', ins, 'bool'))]
        if q == WK + 'wait_shutdown':
            self.need(eng, st, ins, self.all(eng, st, 'stop'), 'order', 'the pool waits for the end of a worker before every worker was asked to stop')
            self.event(eng, st, ins, 'wait', obj)
            return [(st, VOID)]
        if q.startswith('kio::alog::') or q == WK + 'get_id':
            return [(st, VOID)]
        if q.startswith('std::hash') or 'std::hash' in q:
            a = args[-1]
            v = eng.load(st, eng.loc_of(a)) if a[0] == '&' else a
            self.put(st, key=1 if "('p', 'key')" in repr(v) or v == eng.load(st, (('v', st.top.ctx, self.keyvar),)) else None)
            h = eng.sym(st, 'hash', ins, 'unsigned long')
            eng.unsigned.add(h)
            return [(st, h)]
        return None

    def joining(self, eng, st, ins):
        self.need(eng, st, ins, self.all(eng, st, 'stop'), 'join', 'the pool joins a thread whose worker was not asked to stop')

    def captured(self, eng, st, cl):
        out = []
        for x in cl[1:]:
            if isinstance(x, tuple):
                out.append(x)
        return out

    def on_bin(self, eng, st, ins, op, a, b):
        if op == '%' and eng.numok(b) and self.name == 'get_worker_id_by_key':
            s = eng.sym(st, 'mod', ins, 'unsigned long')
            eng.unsigned.add(s)
            if is_unsigned(ins.x.get('t')):
                st.facts = {**st.facts, mk_le(sub(add(s, ONE), b)): True}
            return s
        if op == '&' and eng.numok(a) and eng.numok(b) and self.name == 'get_worker_id_by_key':
            s = eng.sym(st, 'and', ins, 'unsigned long')
            eng.unsigned.add(s)
            st.facts = {**st.facts, mk_le(sub(s, b)): True, mk_le(sub(s, a)): True}
            return s
        return None

    def on_exit(self, eng, st, ins, how, val):
        self.n += 1
        n = self.name
        if n == 'IOPool':
            num = ('p', 'num_workers')
            if how == 'exc':
                self.need(eng, st, ins, eng.truth(st, mk_eq(num)) is True or self.get(st, 'other'), 'refused', 'a pool with workers is refused')
                return
            self.need(eng, st, ins, eng.truth(st, mk_eq(num)) is False, 'zero', 'a pool without workers is made: no key has a worker')
            self.need(eng, st, ins, eq(eng, st, self.size(eng, st), num), 'number', 'the pool does not hold the requested number of workers')
            self.need(eng, st, ins, self.all(eng, st, 'thread'), 'thread', 'not every worker gets a thread: what is posted to it never runs')
            self.need(eng, st, ins, self.all(eng, st, 'ready'), 'ready', 'the pool is handed out before every worker is ready')
        elif n in ('stop', '~IOPool'):
            if how == 'exc' or self.get(st, 'first') == 0:
                return
            self.need(eng, st, ins, self.all(eng, st, 'stop'), 'stop', 'not every worker is asked to stop')
            self.need(eng, st, ins, self.all(eng, st, 'wait') or self.get(st, 'joined'), 'wait', 'stop returns before every worker has ended')
            self.need(eng, st, ins, self.get(st, 'joined') or self.members, 'join', 'the workers are destroyed before their threads are joined')
        elif n == 'get_worker':
            i = ('p', 'id')
            e = self.elem(eng, st, val)
            if e is None:
                self.need(eng, st, ins, val == ZERO and le(eng, st, self.size(eng, st), i), 'lookup', 'a worker that exists is not found')
            else:
                self.need(eng, st, ins, e[0] == 'ix' and eq(eng, st, e[1], i) and le(eng, st, add(i, ONE), self.size(eng, st)), 'lookup', 'the worker is not the one with that number, or there is none')
        elif n == 'num_workers':
            self.need(eng, st, ins, eng.numok(val) and eq(eng, st, val, self.size(eng, st)), 'lookup', 'the number of workers is wrong')
        else:
            self.need(eng, st, ins, self.get(st, 'key'), 'key', 'the worker of a key does not depend on the key')
            self.need(eng, st, ins, eng.numok(val) and le(eng, st, add(val, ONE), self.size(eng, st)), 'key', 'the worker of a key may not exist')


class Thread(Wk):
    """the body of a thread of the pool runs the loop of its worker once"""
    label = 'pool'

    def may_throw(self, eng, st, ins, fn):
        return False

    def on_call(self, eng, st, ins, fn, obj, args):
        if qn(fn['q']) == WK + 'loop_forever':
            self.put(st, ran=(self.get(st, 'ran') or 0) + 1)
            return [(st, VOID)]
        return None

    def on_exit(self, eng, st, ins, how, val):
        self.n += 1
        self.need(eng, st, ins, self.get(st, 'ran') == 1, 'thread', 'a thread of the pool does not run the loop of its worker exactly once')


def check_pool(chk):
    fields = [x['n'] for x in chk.prog.cls('kio::io::IOPool')['fields']]
    lam = set()
    for name in ('IOPool', 'stop', '~IOPool', 'get_worker', 'num_workers', 'get_worker_id_by_key'):
        for f in pool(chk, name):
            if name == 'IOPool' and not f.get('inits') and not f['params']:
                continue
            r = Pool(name)
            r.keyvar = next((p['id'] for p in f['params'] if p['n'] == 'key'), f['params'][0]['id'] if f['params'] else None)
            r.members = fields.index('workers_') < fields.index('worker_threads_')

            def setup(eng, st):
                for x in (SIZE, ('p', 'num_workers'), ('p', 'id')):
                    eng.unsigned.add(x)
                new = name == 'IOPool'
                for k in KINDS:
                    eng.store(st, ghost(k), ZERO)
                eng.store(st, ghost('size'), ZERO if new else SIZE)
                if not new:
                    # a pool holds at least one worker
                    st.facts = {**st.facts, mk_le(sub(ONE, SIZE)): True}
                st.facts = {**st.facts, mk_le(sub(SIZE, C(2 ** 48))): True, mk_le(sub(('p', 'num_workers'), C(2 ** 48))): True}
            chk.run(r, f, this=THIS, setup=setup)
            if not r.n:
                raise CheckError('%s: no exit analysed' % name)
            lam |= {c[1] for c in r.started}
    for l in sorted(lam, key=repr):
        f = chk.prog.functions.get(l) or next((x for x in chk.prog.functions.values() if x.get('id') == l), None)
        if f is None:
            raise CheckError('the body of a thread is unknown')
        r = Thread()
        chk.run(r, f, this=THIS)
        if not r.n:
            raise CheckError('thread: no exit analysed')
