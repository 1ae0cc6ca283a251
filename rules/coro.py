"""Coroutine types: frame ownership (C09), start and completion (C10), results (C11), SyncWait (C12)."""
from .common import *

THIS = ('p', 'this')
ROOT = ('*', THIS)
CUREXC = ('app', 'current_exception')


def targs(t):
    """template arguments of a type name"""
    i = t.find('<')
    if i < 0:
        return []
    out, d, cur = [], 0, ''
    for ch in t[i + 1:t.rfind('>')]:
        if ch in '<(':
            d += 1
        elif ch in '>)':
            d -= 1
        if ch == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += ch
    return out + ([cur.strip()] if cur.strip() else [])


def plain(t):
    return t.replace('const ', '').replace('&', '').strip()


class Coro(R):
    label = 'coroutine'
    heap_volatile = False
    fast = True
    numeric = True

    def __init__(self):
        self.hits = {}
        self.events = []

    def ev(self, st, *e):
        st.auto = st.auto + (e,)

    def evs(self, st, k):
        return [e for e in st.auto if e[0] == k]

    def handle(self, eng, st, obj):
        v = models.hval(eng, st, obj)
        return v

    def null(self, eng, st, h):
        if h == ZERO:
            return True
        if h[0] == 'handle' or h[:2] in (('app', 'handle_of'), ('app', 'noop_coroutine')):
            return False
        for p in (as_pred(h), ('has', h)):
            try:
                r = eng.truth(st, p)
            except Exception:
                r = None
            if r is not None:
                return not r
        return None

    def alt_of(self, fn, variant, pos=0):
        alts = targs(variant)
        a = (fn.get('ta') or [''])[pos]
        n = a.rstrip('UL')
        if n.isdigit():
            return int(n)
        for i, x in enumerate(alts):
            if x == plain(a) or x == plain(fn.get('rt', '')):
                return i
        return None

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if q == 'std::coroutine_handle::destroy':
            h = self.handle(eng, st, obj)
            self.on_destroy(eng, st, ins, h)
            self.ev(st, 'destroy', h)
            return [(st, ('unk', 'void', 0))]
        if q in ('std::coroutine_handle::resume', 'std::coroutine_handle::operator()'):
            h = self.handle(eng, st, obj)
            self.on_resume(eng, st, ins, h)
            self.ev(st, 'resume', h)
            return [(st, ('unk', 'void', 0))]
        if q == 'std::current_exception':
            return [(st, CUREXC)]
        if q.endswith('exception_ptr::operator bool') and obj is not None:
            v = eng.load(st, eng.loc_of(obj))
            return [(st, ONE if v == CUREXC else ZERO if v == ZERO else ('has', v))]
        if b == 'operator==' and 'exception_ptr' in (fn.get('pt') or [''])[0] and len(args) == 2:
            vs = [self.valof(eng, st, {**fn, 'pt': fn['pt'][i:]}, args[i:]) for i in (0, 1)]
            vs = [ZERO if models.strip(v)[:2] == ('app', 'default') or models.strip(v)[0] == 'zero' else v for v in vs]
            if ZERO in vs:
                v = vs[1] if vs[0] == ZERO else vs[0]
                return [(st, ZERO if v == CUREXC else ONE if v == ZERO else neg(as_pred(('has', v))))]
        if q == 'std::rethrow_exception':
            self.ev(st, 'rethrow', args[0])
            self.on_rethrow(eng, st, ins, args[0])
            return []
        vt = (fn.get('cls') or '')
        if vt.endswith('::exception_ptr') and obj is not None and args and b == 'operator=':
            eng.store(st, eng.loc_of(obj), ZERO if args[0] == ZERO else self.valof(eng, st, fn, args))
            return [(st, obj)]
        if vt.startswith('std::variant<') and obj is not None:
            loc = eng.loc_of(obj)
            if b == 'index':
                v = eng.load(st, loc + ('#index',), 'unsigned long')
                eng.unsigned.add(v)
                return [(st, v)]
            if b == 'emplace':
                k = self.alt_of(fn, vt)
                return [self.setalt(eng, st, ins, loc, k, self.valof(eng, st, fn, args), ('&',) + loc + (('alt', k),))]
            if b == 'operator=' and args:
                t = plain((fn.get('ta') or fn.get('pt') or [''])[0])
                alts = targs(vt)
                if t in alts:
                    return [self.setalt(eng, st, ins, loc, alts.index(t), self.valof(eng, st, fn, args), obj)]
        if q in ('std::get', 'std::get_if', 'std::holds_alternative') and args and args[0][0] == '&':
            loc = args[0][1:]
            vt = plain((fn.get('pt') or [''])[0]).rstrip('*').strip()
            if not vt.startswith('std::variant<'):
                return None
            k = self.alt_of(fn, vt)
            idx = eng.load(st, loc + ('#index',), 'unsigned long')
            eng.unsigned.add(idx)
            if k is None:
                return None
            if q == 'std::holds_alternative':
                return [(st, mk_eq(sub(idx, C(k))))]
            a = ('&',) + loc + (('alt', k),)
            if q == 'std::get':
                if (None, k) not in st.auto:
                    self.ev(st, 'get', loc, k)
                return [(st, a)]
            out = []
            for val in (True, False):
                s = eng.assume(st, mk_eq(sub(idx, C(k))), val)
                if s is not None:
                    if val:
                        self.ev(s, 'get', loc, k)
                    out.append((s, a if val else ZERO))
            return out
        return self.more(eng, st, ins, fn, q, b, obj, args)

    def valof(self, eng, st, fn, args):
        if not args:
            return ('app', 'default')
        v = args[0]
        if v[0] == '&' or (v[0] in ('p', 'init') and models.isref(fn, 0)):
            return eng.load(st, eng.loc_of(v))
        return v

    def setalt(self, eng, st, ins, loc, k, v, res):
        if k is None:
            return (st, res)
        eng.store(st, loc + ('#index',), C(k))
        eng.store(st, loc + (('alt', k),), v)
        self.ev(st, 'set', loc, k, v)
        return (st, res)

    def more(self, eng, st, ins, fn, q, b, obj, args):
        return None

    def on_destroy(self, eng, st, ins, h):
        pass

    def on_resume(self, eng, st, ins, h):
        pass

    def on_rethrow(self, eng, st, ins, v):
        pass


# ------------------------------------------------------------------------------------------------ discovery
class Kind:
    """a coroutine type: its class, promise and functions"""

    def __init__(self, prog, cls):
        self.prog, self.cls = prog, cls
        self.name = cls['t'] if 't' in cls else cls['q']
        self.own = {}
        self.prom = {}
        self.classes = {self.name: self.own, self.name + '::promise_type': self.prom}
        for f in prog.functions.values():
            if 'body' not in f:
                continue
            if f.get('cls') == self.name:
                self.own.setdefault(base_name(f['q']), []).append(f)
            elif f.get('cls') == self.name + '::promise_type':
                self.prom.setdefault(base_name(f['q']), []).append(f)
        self.handles = [x['n'] for x in cls['fields'] if 'coroutine_handle<' in x['t'] or x['t'].endswith('handle_t')]
        fs = self.prom.get('final_suspend', [])
        self.final_t = fs[0]['rt'] if fs else ''
        self.self_destroying = self.final_t.endswith('suspend_never')
        ins = self.prom.get('initial_suspend', [])
        self.initial_t = ins[0]['rt'] if ins else ''

    def awaiter(self, t):
        """methods of an awaiter type"""
        out = {}
        for f in self.prog.functions.values():
            if f.get('cls') == t and 'body' in f:
                out.setdefault(base_name(f['q']), []).append(f)
        return out


def kinds(chk):
    out = []
    for n, c in chk.prog.classes.items():
        if c.get('file', '').find('/stubs/') >= 0 or '::promise_type' in n:
            continue
        if n + '::promise_type' in chk.prog.classes and n.startswith('kio'):
            k = Kind(chk.prog, c)
            if k.prom.get('final_suspend') and k.handles:
                out.append(k)
    return out


def pick(chk, ks):
    """all instantiations in the thorough tier; otherwise the ones whose every member is instantiated, and a few others"""
    if chk.thorough():
        return ks
    full, rest = [], {}
    for k in ks:
        base = k.name.split('<')[0]
        if k.own.get('operator=') or '<' not in k.name or k.name.endswith('<void>') or k.name.endswith('<int>'):
            full.append(k)
        else:
            rest.setdefault(base, []).append(k)
    return full + [k for v in rest.values() for k in v[:2]]


# ------------------------------------------------------------------------------------------------ ownership
class Own(Coro):
    label = 'frame-ownership'

    def __init__(self, kind, fields, held, mode):
        Coro.__init__(self)
        self.kind, self.fields, self.held, self.mode = kind, fields, held, mode

    def on_destroy(self, eng, st, ins, h):
        self.need(eng, st, ins, not self.kind.self_destroying, 'self-destroying frame',
                  'a coroutine frame that destroys itself when it finishes is destroyed a second time')
        self.need(eng, st, ins, ('destroy', h) not in st.auto, 'destroy once', 'a coroutine frame is destroyed twice')
        self.need(eng, st, ins, self.null(eng, st, h) is not True and (self.null(eng, st, h) is False or self.mode == 'live'), 'destroy a frame',
                  'a coroutine handle is destroyed that may not refer to a frame')

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc' or self.kind.self_destroying:
            return
        dead = [e[1] for e in self.evs(st, 'destroy')]
        now = [eng.load(st, l) for l in self.fields]
        now = [ZERO if models.strip(v)[:2] == ('app', 'default') or models.strip(v)[0] == 'zero' else v for v in now]
        ret = [val] if val is not None and val in self.held else []
        if self.mode == 'dtor':
            now = []
        for h in self.held:
            n = now.count(h) + dead.count(h)
            n = n or ret.count(h)
            isnull = self.null(eng, st, h) is True
            self.need(eng, st, ins, n == 1 or (isnull and dead.count(h) == 0), 'one owner',
                      'a coroutine frame is left without an owner (never destroyed)' if n == 0 else 'a coroutine frame has two owners, or is used after it was destroyed (destroyed twice)')
        for v in now:
            self.need(eng, st, ins, v in self.held or v == ZERO or self.null(eng, st, v) is True, 'known frame', 'an owner ends up with a handle it was not given')


def ownership(chk):
    n = 0
    ks = pick(chk, kinds(chk))
    for k in ks:
        OTHER = ('p', 'other')
        for name, fs in k.own.items():
            for f in fs:
                if f.get('static') or (f.get('coro') and name != k.name):
                    continue
                p = f['params']
                same = len(p) == 1 and plain(p[0]['t']) == plain(k.name)
                hf = [(ROOT, h) for h in k.handles]
                of = [(('*', OTHER), h) for h in k.handles]
                H = [('init', l, 0) for l in hf]
                O = [('init', l, 0) for l in of]
                runs = []
                if f['fk'] == 'ctor':
                    if same:
                        runs.append((hf + of, O, '', [OTHER]))
                    elif len(p) == 1 and 'coroutine_handle' in p[0]['t'] or (len(p) == 1 and p[0]['t'].endswith('handle_t')):
                        runs.append((hf, [('p', 'h')], '', [('p', 'h')]))
                elif f['fk'] == 'dtor':
                    runs.append((hf, H, 'dtor', None))
                elif name == 'operator=' and same:
                    runs.append((hf + of, H + O, '', [OTHER]))
                    runs.append((hf, H, '', [THIS]))
                elif name == 'operator=':
                    continue
                elif name in ('await_ready', 'await_suspend', 'await_resume'):
                    runs.append((hf, H, 'live', None))
                else:
                    runs.append((hf, H, 'live', None))
                for fields, held, mode, args in runs:
                    r = Own(k, fields, held, mode)
                    setup = None
                    if args == [OTHER] and f['fk'] != 'ctor':
                        def setup(eng, st):
                            st.facts = {**st.facts, mk_eq(sub(OTHER, THIS)): False}
                    chk.run(r, f, 20000, this=THIS, args=args, setup=setup)
                    n += 1
        # the frame of an owned coroutine waits for its owner at the end; nobody owns a self-destroying one
        ff = k.prom['final_suspend'][0]
        if not k.self_destroying:
            chk.require('frame-ownership', 'final suspend of ' + k.name.split('<')[0], ff['file'], ff['line'], suspends(chk, k, k.final_t),
                        'the coroutine does not suspend at its end although its owner destroys the frame')
            dt = k.own.get('~' + k.name.split('<')[0].split('::')[-1])
            chk.require('frame-ownership', 'destructor of ' + k.name.split('<')[0], ff['file'], k.cls['line'], bool(dt),
                        'the owner of a coroutine frame has no destructor: the frame is never destroyed')
            copies = [m for m in k.cls['methods'] if m.get('ck') in ('copy', 'copyassign') and not m.get('deleted')]
            chk.require('frame-ownership', 'copies of ' + k.name.split('<')[0], ff['file'], k.cls['line'], not copies,
                        'the owner of a coroutine frame can be copied: two owners of one frame')
        for g in k.prom.get('get_return_object', []):
            r = Ret(k)
            chk.run(r, g, 20000, this=THIS)
        # nothing in the promise or its awaiters destroys the frame
        for t in [k.name + '::promise_type', k.final_t, k.initial_t]:
            if not t.startswith(k.name):
                continue
            for name, fs in k.awaiter(t).items():
                for f in fs:
                    if f['fk'] in ('ctor', 'dtor') or name == 'get_return_object':
                        continue
                    chk.run(NoDestroy(), f, 20000, this=THIS)
        if k.self_destroying:
            for name in ('initial_suspend', 'final_suspend'):
                for f in k.prom.get(name, []):
                    chk.ob('frame-ownership', '%s:%s %s' % (rel(f['file']), f['line'], name))
    if n < 20:
        raise CheckError('coro: only %d ownership functions found' % n)
    chk.count('coroutine_types', len(ks))


class Ret(Coro):
    label = 'frame-ownership'

    def __init__(self, kind):
        Coro.__init__(self)
        self.kind = kind

    def on_exit(self, eng, st, ins, how, val):
        want = ('app', 'handle_of', THIS)
        got = [eng.project(val, h) for h in self.kind.handles] if val is not None else []
        self.need(eng, st, ins, want in got, 'return object', 'the object a coroutine returns does not own the frame of that coroutine')


class NoDestroy(Coro):
    label = 'frame-ownership'

    def on_destroy(self, eng, st, ins, h):
        self.need(eng, st, ins, False, 'promise destroys', 'a promise or awaiter destroys a coroutine frame that has an owner')

    def on_exit(self, eng, st, ins, how, val):
        self.need(eng, st, ins, True, 'promise keeps the frame', '')


class Const(Coro):
    """collects the values a function returns"""

    def __init__(self):
        Coro.__init__(self)
        self.vals = []

    def on_exit(self, eng, st, ins, how, val):
        self.vals.append(val)


def suspends(chk, k, t):
    """whether awaiting this awaiter always suspends"""
    if t.endswith('suspend_always'):
        return True
    if t.endswith('suspend_never'):
        return False
    fs = k.awaiter(t).get('await_ready', [])
    if not fs:
        return False
    for f in fs:
        r = Const()
        chk.run(r, f, 5000, this=THIS)
        if not r.vals or any(v not in (ZERO, ('c', 0)) for v in r.vals):
            return False
    for f in k.awaiter(t).get('await_suspend', []):
        if f['rt'] == 'bool':
            r = Const()
            chk.run(r, f, 5000, this=THIS)
            if any(v != ONE for v in r.vals):
                return False
    return True


# ------------------------------------------------------------------------------------------------ start and completion
class AwaitReady(Coro):
    label = 'start-and-completion'

    def __init__(self, h):
        Coro.__init__(self)
        self.h = h

    def more(self, eng, st, ins, fn, q, b, obj, args):
        if q == 'std::coroutine_handle::done':
            h = self.handle(eng, st, obj)
            out = []
            for v in (True, False):
                s = st.copy()
                self.ev(s, 'done', h, v)
                out.append((s, ONE if v else ZERO))
            return out
        return None

    def on_resume(self, eng, st, ins, h):
        self.need(eng, st, ins, False, 'ready does not start', 'asking whether a task is ready starts it')

    def on_exit(self, eng, st, ins, how, val):
        d = [e[2] for e in self.evs(st, 'done') if e[1] == self.h]
        t = eng.truth(st, as_pred(val)) if val is not None and val[0] != 'c' else (val is not None and val[1] != 0)
        self.need(eng, st, ins, t is False and (True not in d) or t is True and True in d, 'ready means done',
                  'a task is reported ready although it has not finished (its result is read early), or the reverse (a finished coroutine is resumed)')


class AwaitSuspend(Coro):
    label = 'start-and-completion'

    def __init__(self, h, cont):
        Coro.__init__(self)
        self.h, self.cont = h, cont
        self.fields = set()

    def stored(self, st):
        p = ('*', ('app', 'promise', self.h))
        return {l[1:] for l, v in st.mem.items() if l[0] == p and v == self.cont}

    def on_resume(self, eng, st, ins, h):
        self.need(eng, st, ins, h == self.h and bool(self.stored(st)), 'continuation before start', 'the task is started before its continuation is stored (it can finish without resuming its awaiter)')

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        s = self.stored(st)
        self.need(eng, st, ins, bool(s), 'continuation stored', 'awaiting a task does not record who awaits it')
        self.fields |= s
        n = sum(1 for e in self.evs(st, 'resume') if e[1] == self.h) + (1 if val == self.h else 0)
        self.need(eng, st, ins, n == 1, 'started once', 'awaiting a task does not start it exactly once')
        others = [e for e in self.evs(st, 'resume') if e[1] != self.h]
        self.need(eng, st, ins, not others, 'only starts the task', 'awaiting a task resumes some other coroutine')


class FinalSuspend(Coro):
    label = 'start-and-completion'

    def __init__(self, h, fields):
        Coro.__init__(self)
        self.h, self.cf = h, fields

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        p = ('*', ('app', 'promise', self.h))
        conts = [('init', (p,) + f, 0) for f in self.cf]
        res = [e[1] for e in self.evs(st, 'resume')] + ([val] if val is not None and val != ('app', 'noop_coroutine') and val[0] in ('init', 'p', 'app', 'handle') else [])
        bad = [r for r in res if r not in conts]
        self.need(eng, st, ins, not bad, 'resumes its awaiter', 'a finished task resumes something other than its awaiter')
        n = [r for r in res if r in conts]
        for c in conts:
            isnull = self.null(eng, st, c)
            if n:
                self.need(eng, st, ins, len(n) == 1, 'resumes once', 'a finished task resumes its awaiter twice')
                self.need(eng, st, ins, isnull is False, 'has an awaiter', 'a finished task resumes an awaiter it may not have')
            else:
                self.need(eng, st, ins, isnull is True, 'awaiter not forgotten', 'a finished task does not resume its awaiter')


def starts(chk):
    n = 0
    for k in pick(chk, kinds(chk)):
        f0 = k.prom['final_suspend'][0]
        if 'await_suspend' not in k.own:
            continue
        n += 1
        short = k.name.split('<')[0]
        fi = (k.prom.get('initial_suspend') or [f0])[0]
        chk.require('start-and-completion', 'lazy ' + short, fi['file'], fi['line'], suspends(chk, k, k.initial_t),
                    'the coroutine starts running before it is awaited')
        H = ('init', (ROOT, k.handles[0]), 0)
        for f in k.own.get('await_ready', []):
            chk.run(AwaitReady(H), f, 5000, this=THIS)
        chk.require('start-and-completion', 'await_ready ' + short, f0['file'], k.cls['line'], bool(k.own.get('await_ready')), 'the task has no await_ready')
        fields = set()
        for f in k.own['await_suspend']:
            r = AwaitSuspend(H, ('p', 'cont'))
            chk.run(r, f, 5000, this=THIS, args=[('p', 'cont')])
            fields |= r.fields
        chk.require('start-and-completion', 'suspends at the end ' + short, f0['file'], f0['line'], suspends(chk, k, k.final_t),
                    'the task does not suspend at its end')
        aw = k.awaiter(k.final_t).get('await_suspend', [])
        chk.require('start-and-completion', 'final awaiter ' + short, f0['file'], f0['line'], bool(aw), 'nothing resumes the awaiter of a finished task')
        if not fields:
            continue
        for f in aw:
            chk.run(FinalSuspend(('p', 'h'), fields), f, 5000, this=THIS, args=[('p', 'h')])
        # the continuation is set only by awaiting
        for name, fs in list(k.prom.items()) + [(n2, f2) for n2, f2 in k.own.items() if n2 != 'await_suspend']:
            for f in fs:
                if f['fk'] in ('ctor', 'dtor'):
                    continue
                chk.run(KeepCont(k, {x[0] for x in fields if x}), f, 20000, this=THIS)
    if n < 3:
        raise CheckError('coro: only %d awaitable coroutine types found' % n)


class KeepCont(Coro):
    label = 'start-and-completion'

    def __init__(self, kind, fields):
        Coro.__init__(self)
        self.kind, self.fields = kind, fields

    def on_store(self, eng, st, ins, loc, val):
        if loc and loc[-1] in self.fields and len(loc) >= 2 and (loc[0] == ROOT or loc[0][:1] == ('*',) and loc[0][1][:2] == ('app', 'promise')) and ins is not None:
            self.need(eng, st, ins, False, 'continuation kept', 'the continuation of a task is changed outside await_suspend')

    def on_resume(self, eng, st, ins, h):
        self.need(eng, st, ins, False, 'no other resume', 'a task is resumed outside of awaiting it')

    def on_exit(self, eng, st, ins, how, val):
        self.need(eng, st, ins, True, 'no effect on the chain', '')


# ------------------------------------------------------------------------------------------------ results
class Put(Coro):
    """what a promise function leaves in the promise"""
    label = 'result-delivery'

    def __init__(self, want, what):
        Coro.__init__(self)
        self.want, self.what = want, what
        self.cells = None

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        cells = set()
        for l, v in st.mem.items():
            if l[0] != ROOT:
                continue
            if models.strip(v) == self.want or v == self.want:
                c = l[1:]
                if c and isinstance(c[-1], tuple) and c[-1][0] == 'alt':
                    idx = st.mem.get((ROOT,) + c[:-1] + ('#index',))
                    if idx != C(c[-1][1]):
                        continue
                cells.add(c)
        for e in self.evs(st, 'set'):
            if e[1][0] == ROOT and (e[3] == self.want or mentions(e[3], self.want) or self.want[0] == 'any'):
                last = [x for x in self.evs(st, 'set') if x[1] == e[1]][-1]
                if last == e:
                    cells.add(e[1][1:] + (('alt', e[2]),))
        self.need(eng, st, ins, bool(cells), 'stores the ' + self.what, 'a coroutine does not keep its %s for its awaiter' % self.what)
        self.cells = cells if self.cells is None else self.cells & cells


class Take(Coro):
    """reading the result: rethrow exactly when there is an exception, else hand out the value"""
    label = 'result-delivery'

    def __init__(self, exc, val, void, scalar):
        Coro.__init__(self)
        self.exc, self.valc, self.void, self.scalar = exc, val, void, scalar
        self.base = None
        self.threw = 0

    def prepare(self, case):
        self.case = case

        def setup(eng, st):
            for b in self.bases:
                for c in self.exc:
                    if isinstance(c[-1], tuple) and c[-1][0] == 'alt':
                        st.mem[b + c[:-1] + ('#index',)] = C(c[-1][1] if case == 'exception' else self.valc and min(x[-1][1] for x in self.valc) or 0)
                        if case == 'exception':
                            st.mem[b + c] = CUREXC
                        for d in self.valc or ():
                            if case != 'exception':
                                st.mem[b + d] = ('p', 'stored')
                    else:
                        st.mem[b + c] = CUREXC if case == 'exception' else ZERO
        return setup

    def more(self, eng, st, ins, fn, q, b, obj, args):
        if q == 'std::visit':
            self.threw += 1        # generic visitors are not followed
            return []
        return None

    def on_rethrow(self, eng, st, ins, v):
        self.threw += 1
        ok = self.case == 'exception' and (v == CUREXC or mentions(v, CUREXC) or any(e[0] == 'get' for e in st.auto))
        self.need(eng, st, ins, ok, 'rethrow', 'something is rethrown that is not the exception the coroutine ended with, or when there is none')

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        self.need(eng, st, ins, self.case != 'exception', 'exception not swallowed', 'a coroutine that ended with an exception is treated as if it had succeeded')
        if self.void or self.case == 'exception':
            return
        good = False
        for b in self.bases:
            for c in self.valc:
                cell = eng.load(st, b + c)
                if val is not None and (val == cell or mentions(val, cell) or mentions(val, ('p', 'stored'))):
                    good = True
                if isinstance(c[-1], tuple) and any(e[2] == c[-1][1] for e in self.evs(st, 'get')) and not self.scalar:
                    good = True
        self.need(eng, st, ins, good, 'value', 'awaiting a coroutine does not yield the value it returned')


def results(chk):
    n = 0
    for k in pick(chk, kinds(chk)):
        T = targs(k.name)
        getter = k.own.get('await_resume') or k.own.get('result')
        if not getter or not T:
            continue
        n += 1
        T = T[0]
        f0 = k.prom['final_suspend'][0]
        exc, val = None, None
        for f in k.prom.get('unhandled_exception', []):
            r = Put(CUREXC, 'exception')
            chk.run(r, f, 5000, this=THIS)
            exc = r.cells
        chk.require('result-delivery', 'unhandled_exception ' + k.name.split('<')[0], f0['file'], f0['line'], exc is not None, 'the promise has no unhandled_exception')
        void = T == 'void'
        if not void:
            for f in k.prom.get('return_value', []):
                r = Put(('p', 'value'), 'value')
                chk.run(r, f, 5000, this=THIS, args=[('p', 'value')])
                val = r.cells if val is None else val & (r.cells or set())
            chk.require('result-delivery', 'return_value ' + k.name.split('<')[0], f0['file'], f0['line'], val is not None, 'the promise has no return_value')
        if not exc or (not void and not val):
            continue
        for name in ('await_resume', 'result'):
            for f in k.own.get(name, []) + (k.prom.get(name, []) if name == 'result' else []):
                r = Take(exc, val, void, numtype(T) is not None)
                r.bases = [(ROOT,), (('*', ('app', 'promise', ('init', (ROOT, k.handles[0]), 0))),)]
                for case in ('exception', 'value'):
                    chk.run(r, f, 5000, this=THIS, setup=r.prepare(case))
                chk.require('result-delivery', 'rethrows', f['file'], f['line'], r.threw > 0, 'an exception that ends a coroutine never reaches its awaiter')
    if n < 4:
        raise CheckError('coro: only %d coroutine types with results found' % n)


# ------------------------------------------------------------------------------------------------ SyncWait
SIGNAL = {'std::latch::count_down', 'std::counting_semaphore::release', 'std::latch::arrive_and_wait', 'std::promise::set_value'}
SIGNAL |= {'std::condition_variable::notify_one', 'std::condition_variable::notify_all', 'std::counting_semaphore::release'}
WAIT = {'std::__basic_future::wait', 'std::condition_variable::wait', 'std::shared_future::wait', 'std::latch::wait', 'std::counting_semaphore::acquire', 'std::future::wait', 'std::future::get'}


class Sync(Coro):
    label = 'sync-wait'

    def more(self, eng, st, ins, fn, q, b, obj, args):
        if q in SIGNAL and obj is not None:
            loc = eng.loc_of(obj)
            self.need(eng, st, ins, not args or args[0] == ONE, 'signal once', 'the completion signal is not exactly one')
            self.ev(st, 'signal', loc)
            self.on_signal(eng, st, ins, loc)
            return [(st, ('unk', 'void', 0))]
        if q in WAIT and obj is not None:
            self.ev(st, 'wait', eng.loc_of(obj))
            return [(st, ('unk', 'void', 0))]
        if q in ('std::latch::try_wait', 'std::counting_semaphore::try_acquire') and obj is not None:
            t = st.copy()
            self.ev(t, 'wait', eng.loc_of(obj))
            return [(t, ONE), (st, ZERO)]
        if q.startswith('std::atomic') and obj is not None and obj[0] == '&' or q.startswith('std::__atomic_base') and obj is not None:
            loc = eng.loc_of(obj)
            if b in ('store', 'operator=', 'test_and_set', 'exchange') and (not args or args[0] != ZERO):
                self.ev(st, 'signal', loc)
                self.on_signal(eng, st, ins, loc)
                return [(st, ZERO)]
            if b in ('notify_one', 'notify_all'):
                return [(st, ZERO)]
            if b == 'wait':
                self.ev(st, 'wait', loc)
                return [(st, ZERO)]
            if b in ('load', 'test', 'operator bool'):
                t = st.copy()
                self.ev(t, 'wait', loc)
                return [(t, ONE), (st, ZERO)]
        if q == 'std::latch::latch' and args:
            self.need(eng, st, ins, args[0] == ONE, 'one signal', 'the event waits for another number of signals than the one the task sends')
        return None

    def on_signal(self, eng, st, ins, loc):
        pass


class Quiet(Sync):
    """code that must not signal completion"""

    def on_signal(self, eng, st, ins, loc):
        self.need(eng, st, ins, False, 'early signal', 'completion is signalled before the task has finished (the waiting thread then reads the result and destroys the frame)')

    def on_exit(self, eng, st, ins, how, val):
        self.need(eng, st, ins, True, 'no early signal', '')


class Finish(Sync):
    def on_store(self, eng, st, ins, loc, val):
        self.on_load(eng, st, ins, loc, val)

    def on_load(self, eng, st, ins, loc, val):
        p = ('*', ('app', 'promise', ('p', 'h')))
        if loc and loc[0] == p and self.evs(st, 'signal'):
            self.need(eng, st, ins, False, 'frame after signal', 'the frame is used after completion was signalled (the waiting thread may have destroyed it)')

    def on_exit(self, eng, st, ins, how, val):
        p = ('*', ('app', 'promise', ('p', 'h')))
        s = self.evs(st, 'signal')
        self.need(eng, st, ins, len(s) == 1 and mentions(s[0][1], p), 'signals at the end', 'the end of the task is not signalled exactly once to the event it was given')
        self.need(eng, st, ins, not self.evs(st, 'resume') and not self.evs(st, 'destroy'), 'only signals', 'the end of the task does more than signal')


class Whole(Sync):
    """SyncWait itself"""

    def __init__(self):
        Sync.__init__(self)
        self.resumes = self.reads = 0

    def on_resume(self, eng, st, ins, h):
        self.resumes += 1
        p = ('*', ('app', 'promise', h))
        ok = any(l[0] == p and v[0] == '&' and v[1][0] == 'v' for l, v in st.mem.items())
        self.need(eng, st, ins, ok, 'event before start', 'the task is started before it knows the event to signal')
        self.need(eng, st, ins, not self.evs(st, 'resume'), 'started once', 'the task is started twice')

    def reading(self, eng, st, ins):
        self.reads += 1
        self.need(eng, st, ins, bool(self.evs(st, 'wait')), 'wait before result', 'the result is read before the task has finished')

    def more(self, eng, st, ins, fn, q, b, obj, args):
        r = Sync.more(self, eng, st, ins, fn, q, b, obj, args)
        if q in WAIT and obj is not None:
            loc = eng.loc_of(obj)
            evs = [v[1:] for l, v in st.mem.items() if l[0][:1] == ('*',) and l[0][1][:2] == ('app', 'promise') and v[0] == '&']
            self.need(eng, st, ins, bool(self.evs(st, 'resume')), 'start before wait', 'the thread waits before the task was started')
            self.need(eng, st, ins, any(loc[:len(e)] == e for e in evs), 'same event', 'the thread waits for another event than the one the task signals')
        return r

    def on_rethrow(self, eng, st, ins, v):
        self.reading(eng, st, ins)

    def on_load(self, eng, st, ins, loc, val):
        if loc and loc[0][:1] == ('*',) and loc[0][1][:2] == ('app', 'promise') and loc[-1] in ('#index',):
            self.reading(eng, st, ins)

    def on_call(self, eng, st, ins, fn, obj, args):
        r = Sync.on_call(self, eng, st, ins, fn, obj, args)
        q = qn(fn['q'])
        if q == 'std::get' or q.endswith('exception_ptr::operator bool'):
            self.reading(eng, st, ins)
        return r

    def on_destroy(self, eng, st, ins, h):
        self.need(eng, st, ins, bool(self.evs(st, 'wait')), 'frame lives until the end', 'a frame is destroyed before the task has finished')

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        self.need(eng, st, ins, len(self.evs(st, 'resume')) == 1 and len(self.evs(st, 'wait')) >= 1, 'runs the task', 'the call returns without having run the task to its end')


class Wrapper(Coro):
    """the coroutine around the task: awaits it once and returns its result"""
    label = 'sync-wait'

    def on_await(self, eng, st, ins, val):
        self.ev(st, 'await')
        self.need(eng, st, ins, len(self.evs(st, 'await')) == 1, 'awaits once', 'the task is awaited twice')
        s = eng.sym(st, 'await', ins, ins.x.get('t'))
        eng.info[s] = ('await', val)
        return [(st, s)]

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        self.need(eng, st, ins, len(self.evs(st, 'await')) == 1, 'awaits the task', 'the call can finish without running the task')
        if not self.void:
            ok = val is not None and any(a[:2] == ('sym', 'await') for a in subterms(val))
            self.need(eng, st, ins, ok, 'passes the value', 'the value of the task is not passed on')


def syncwait(chk):
    n = 0
    prog = chk.prog
    ks = [k for k in pick(chk, kinds(chk)) if k.own.get('start')]
    for k in ks:
        aw = k.awaiter(k.final_t)
        f0 = k.prom['final_suspend'][0]
        short = k.name.split('<')[0]
        chk.require('sync-wait', 'suspends at the end ' + short, f0['file'], f0['line'], suspends(chk, k, k.final_t), 'the task does not suspend at its end')
        chk.require('sync-wait', 'final awaiter ' + short, f0['file'], f0['line'], bool(aw.get('await_suspend')), 'nothing signals the end of the task')
        chk.require('sync-wait', 'lazy ' + short, f0['file'], f0['line'], suspends(chk, k, k.initial_t), 'the task starts before it knows the event to signal')
        for f in aw.get('await_suspend', []):
            chk.run(Finish(), f, 5000, this=THIS, args=[('p', 'h')])
            n += 1
        for name, fs in list(k.prom.items()) + [x for x in aw.items() if x[0] != 'await_suspend'] + list(k.own.items()):
            for f in fs:
                if f['fk'] in ('ctor', 'dtor'):
                    continue
                chk.run(Quiet(), f, 5000, this=THIS)
    m = 0
    seen = set()
    for f in list(prog.functions.values()):
        if f['q'] == 'kio::SyncWait' and 'body' in f:
            if f['id'] in seen or (m >= 8 and not chk.thorough()):
                continue
            seen.add(f['id'])
            m += 1
            r = Whole()
            chk.run(r, f, 20000)
            chk.require('sync-wait', 'runs the task', f['file'], f['line'], r.resumes > 0, 'SyncWait never starts the task')
            chk.require('sync-wait', 'waits for the task', f['file'], f['line'], r.reads > 0, 'SyncWait never reads the result of the task')
        if f.get('q') == 'kio::internal::MakeSyncAwaitTask' and 'body' in f:
            r = Wrapper()
            r.void = f['rt'].endswith('<void>')
            chk.run(r, f, 20000)
    if n < 2 or m < 2:
        raise CheckError('coro: SyncWait not found (%d, %d)' % (n, m))
    chk.count('syncwait_instantiations', m)
