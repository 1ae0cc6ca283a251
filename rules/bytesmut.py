"""BytesMut: cursors stay ordered and inside the buffer, block copies stay inside live
memory, and the unread bytes survive every operation (C01, C02)."""
from .common import *

CLS = 'kio::BytesMut'
THIS = ('p', 'this')


class Fields:
    def __init__(self, prog):
        c = prog.cls(CLS)
        vec = [f['n'] for f in c['fields'] if f['t'].startswith('std::vector<char')]
        if len(vec) != 1:
            raise CheckError('BytesMut: cannot identify the byte storage')
        self.buf = vec[0]
        self.r = self.probe(prog, 'consumed')
        rem = prog.fn(CLS + '::remaining')
        p = Probe()
        from sa.engine import Engine
        e = Engine(prog, p, 20000)
        e.entry(rem, this=THIS)
        w = set()
        for v in p.out:
            for a in atoms(v):
                if a[0] == 'init' and a[1][-1] != self.r:
                    w.add(a[1][1:])
        if len(w) != 1:
            raise CheckError('BytesMut: cannot identify the write cursor')
        self.w = w.pop()
        self.r = (self.r,)
        self.root = ('*', THIS)

    def probe(self, prog, name):
        from sa.engine import Engine
        p = Probe()
        Engine(prog, p, 20000).entry(prog.fn(CLS + '::' + name), this=THIS)
        v = p.out
        if len(v) != 1 or v[0][0] != 'init':
            raise CheckError('BytesMut::%s is not a plain accessor' % name)
        return v[0][1][-1]

    def get(self, eng, st):
        ld = lambda *f: eng.load(st, (self.root,) + f, 'unsigned long')
        return ld(self.buf, '#data'), ld(self.buf, '#size'), ld(*self.r), ld(*self.w)


class Probe(R):
    def __init__(self):
        self.out = []

    def on_exit(self, eng, st, ins, how, val):
        if val is not None and val not in self.out:
            self.out.append(val)


class Bytes(Num):
    label = 'bytes-mut'

    def __init__(self, F, name, mem, content):
        self.F, self.name, self.mem, self.content = F, name, mem, content
        self.f = None

    # auto = (live pointer, live length)
    def start(self, eng, st):
        F = self.F
        eng.unsigned |= {arg(0), arg(1)}
        d, n, r, w = F.get(eng, st)
        eng.unsigned |= {d, n, r, w}
        st.facts = {mk_le(sub(r, w)): True, mk_le(sub(w, n)): True, mk_le(sub(n, C(PTRMAX))): True,
                    mk_le(sub(d, C(PTRMAX))): True, mk_le(sub(C(1), d)): True}
        st.auto = ('live', add(d, r), sub(w, r))
        self.d0, self.n0, self.r0, self.w0 = d, n, r, w

    def owner(self, eng, st, ptr):
        """(offset, size) of the block ptr points into"""
        ptr = eng.ptr(ptr)
        best = None
        ds = [(l[:-1], v) for l, v in st.mem.items() if l[-1] == '#data']
        known = {l for l, v in ds}
        # objects whose data is the projection of a whole-object symbol
        for l, v in list(st.mem.items()):
            if l[-1] == '#data' or l[-1] == '#size':
                continue
            if v[0] in ('sym', 'phi', 'init', 'old', 'app', 'hv') and l not in known:
                ds.append((l, eng.project(v, '#data')))
        ds.append(((self.F.root, self.F.buf), eng.load(st, (self.F.root, self.F.buf, '#data'))))
        pa = atoms(ptr)
        for l, v in ds:
            v = eng.ptr(v)
            if v[0] == 'c' or v not in pa:
                continue
            return sub(ptr, v), eng.load(st, l + ('#size',), 'unsigned long')
        if isinstance(self.argspan, tuple) and self.argspan[1] in pa:
            return sub(ptr, self.argspan[1]), self.argspan[2]
        return None

    argspan = None

    def inside(self, eng, st, ins, ptr, n, what):
        if le(eng, st, n, ZERO):
            return True
        o = self.owner(eng, st, ptr)
        ok = o is not None and ge0(eng, st, o[0]) and le(eng, st, add(o[0], n), o[1])
        if self.mem:
            self.need(eng, st, ins, ok, what, '%s is not provably inside the block it belongs to' % what)
        return ok

    def on_call(self, eng, st, ins, fn, obj, args):
        op = copyop(eng, st, fn, args)
        if op is not None:
            dst, src, n, how = op
            dst, src = eng.ptr(dst), eng.ptr(src)
            self.inside(eng, st, ins, src, n, 'source of %s' % base_name(fn['q']))
            self.inside(eng, st, ins, dst, n, 'destination of %s' % base_name(fn['q']))
            do, so = self.owner(eng, st, dst), self.owner(eng, st, src)
            same = do is not None and so is not None and sub(sub(dst, src), sub(do[0], so[0])) == ZERO
            if same and how == 'cpy' and self.mem:
                ok = le(eng, st, add(dst, n), src) or le(eng, st, add(src, n), dst) or le(eng, st, n, ZERO)
                self.need(eng, st, ins, ok, 'memcpy overlap', 'memcpy between overlapping parts of one buffer')
            if same and how == 'fwd' and self.mem:
                self.need(eng, st, ins, le(eng, st, dst, src) or le(eng, st, add(src, n), dst), 'copy direction',
                          'forward copy onto a later overlapping range')
            _, lp, ln = st.auto
            s = st
            if eq(eng, st, src, lp) and eq(eng, st, n, ln):
                s.auto = ('live', dst, ln)
            elif self.argspan is not None and eq(eng, st, src, self.argspan[1]) and eq(eng, st, dst, add(lp, ln)):
                s.auto = ('live', lp, add(ln, n))
            elif self.argspan is not None and eq(eng, st, src, self.argspan[1]) and le(eng, st, ln, ZERO):
                s.auto = ('live', dst, add(ln, n))
            else:
                off = do is not None and (le(eng, st, add(dst, n), lp) or le(eng, st, add(lp, ln), dst) or not same_base(eng, dst, lp)
                                          or le(eng, st, n, ZERO))
                if not off and self.content:
                    self.need(eng, st, ins, le(eng, st, ln, ZERO), 'copy over unread bytes', 'this copy may overwrite bytes that were not read yet')
            r = dst if ins.x.get('t') and ins.x['t'] != 'void' else C(0)
            return [(s, r)]
        return None

    def on_idx(self, eng, st, ins, b, i, fn=None):
        if fn is None or not self.mem or not fn['q'].startswith('std::vector'):
            return
        n = eng.load(st, eng.loc_of(b) + ('#size',), 'unsigned long')
        self.need(eng, st, ins, ge0(eng, st, i) and lt(eng, st, i, n), 'element index', 'element index is not provably below the size')

    def on_mutated(self, eng, st, ins, fn, obj, name, vals, odata, osize):
        _, lp, ln = st.auto
        od = eng.ptr(odata)
        if od in atoms(lp):
            nd = eng.ptr(eng.load(st, eng.loc_of(obj) + ('#data',)))
            off = sub(lp, od)
            if name in ('resize', 'reserve', 'shrink_to_fit', 'push_back', 'emplace_back', 'append'):
                if name == 'resize' and not le(eng, st, add(off, ln), vals[0]) and not le(eng, st, ln, ZERO):
                    st.auto = ('live', ('unk', 'lost', 0), ln)
                    return
                eng.unsigned.add(nd)
                st.auto = ('live', add(off, nd), ln)
            elif name in ('clear', 'erase', 'assign', 'insert'):
                st.auto = ('live', ('unk', 'lost', 0), ln)
        # a vector never holds more than the address space
        n = eng.load(st, eng.loc_of(obj) + ('#size',))
        p = mk_le(sub(n, C(2 ** 63 - 1)))
        if p[0] == 'le':
            st.facts = {**st.facts, p: True}

    def on_exit(self, eng, st, ins, how, val):
        F = self.F
        d, n, r, w = F.get(eng, st)
        if self.mem:
            self.need(eng, st, ins, le(eng, st, r, w) and le(eng, st, w, n), 'cursor order',
                      'on return the read cursor, the write cursor and the buffer size may be out of order')
        if how == 'exc':
            if self.f and self.content:
                _, lp, ln = st.auto
                self.need(eng, st, ins, eq(eng, st, add(d, r), lp) and eq(eng, st, sub(w, r), ln), 'exception leaves data alone',
                          'an exception leaves the unread bytes changed')
            if self.f and self.f[1]:
                self.f[1](self, eng, st, ins)
            return
        if self.f:
            self.f[0](self, eng, st, ins, val)

    def live(self, eng, st, ins, skip=ZERO, more=ZERO):
        """the unread bytes are the old ones, without the first skip, plus more"""
        if not self.content:
            return
        d, n, r, w = self.F.get(eng, st)
        _, lp, ln = st.auto
        want = add(sub(ln, skip), more)
        ok = eq(eng, st, sub(w, r), want)
        self.need(eng, st, ins, ok, 'unread length', 'the number of unread bytes on return is not what the operation promises')
        ok2 = le(eng, st, ln, ZERO) or le(eng, st, sub(ln, skip), ZERO) or eq(eng, st, add(d, r), add(lp, skip))
        self.need(eng, st, ins, ok2, 'unread bytes kept', 'the unread bytes on return are not the ones that were there (not moved, or moved from the wrong place)')


def same_base(eng, a, b):
    d = sub(a, b)
    return not any(x[0] in ('sym', 'phi') for x in atoms(d) ^ set()) or bool(atoms(a) & atoms(b))


def arg(i):
    return ('p', 'arg%d' % i)


def run_one(chk, F, name, mem, content, post=None, exc=None, args=None, span=None, pred=None):
    fs = [f for f in chk.prog.fns(CLS + '::' + name) if pred is None or pred(f)]
    for f in fs:
        rule = Bytes(F, name, mem, content)
        rule.f = (post, exc) if post else None
        rule.argspan = span
        if span:
            def setup(eng, st, rule=rule):
                rule.start(eng, st)
                eng.unsigned |= {span[1], span[2]}
                st.facts = {**st.facts, mk_le(sub(span[2], C(2 ** 63 - 1))): True}
        else:
            def setup(eng, st, rule=rule):
                rule.start(eng, st)
        chk.run(rule, f, 200000, this=THIS, args=args, setup=setup)


def specs():
    n = arg(0)

    def keep(r, e, s, i, v):
        r.live(e, s, i)

    def reserve(r, e, s, i, v):
        r.live(e, s, i)
        d, sz, rd, w = r.F.get(e, s)
        r.need(e, s, i, le(e, s, n, sub(sz, w)), 'room', 'reserve(n) returns with less than n writable bytes')

    def advance(r, e, s, i, v):
        r.need(e, s, i, le(e, s, n, sub(r.w0, r.r0)), 'advance guard', 'advance(n) returns although n exceeds the unread bytes')
        r.live(e, s, i, skip=n)

    def advance_exc(r, e, s, i):
        r.need(e, s, i, lt(e, s, sub(r.w0, r.r0), n), 'advance refuses only too much', 'advance(n) throws although n bytes are available')

    def commit(r, e, s, i, v):
        r.need(e, s, i, le(e, s, n, sub(r.n0, r.w0)), 'commit guard', 'commit_write(n) returns although n exceeds the writable space')
        r.live(e, s, i, more=n)

    def commit_exc(r, e, s, i):
        r.need(e, s, i, lt(e, s, sub(r.n0, r.w0), n), 'commit refuses only too much', 'commit_write(n) throws although n bytes are writable')

    def peek(r, e, s, i, v):
        r.live(e, s, i)
        p, l = e.project(v, '#data'), models.size_val(e, v)
        r.need(e, s, i, le(e, s, n, sub(r.w0, r.r0)), 'peek guard', 'peek(n) returns although n exceeds the unread bytes')
        r.need(e, s, i, eq(e, s, p, add(r.d0, r.r0)) and eq(e, s, l, n), 'peek result', 'peek(n) is not the first n unread bytes')

    def peek_exc(r, e, s, i):
        r.need(e, s, i, lt(e, s, sub(r.w0, r.r0), n), 'peek refuses only too much', 'peek(n) throws although n bytes are available')

    def span(r, e, s, i, v):
        r.live(e, s, i)
        p, l = e.project(v, '#data'), models.size_val(e, v)
        r.need(e, s, i, eq(e, s, p, add(r.d0, r.r0)) and eq(e, s, l, sub(r.w0, r.r0)), 'readable_span result',
               'readable_span() is not exactly the unread bytes')

    def wspan(r, e, s, i, v):
        r.live(e, s, i)
        p, l = e.project(v, '#data'), models.size_val(e, v)
        d, sz, rd, w = r.F.get(e, s)
        r.need(e, s, i, eq(e, s, p, add(d, w)) and eq(e, s, l, sub(sz, w)), 'writable_span result',
               'writable_span() is not exactly the space behind the unread bytes')

    def remaining(r, e, s, i, v):
        r.live(e, s, i)
        r.need(e, s, i, eq(e, s, v, sub(r.w0, r.r0)), 'remaining result', 'remaining() is not the number of unread bytes')

    def writable(r, e, s, i, v):
        r.live(e, s, i)
        r.need(e, s, i, eq(e, s, v, sub(r.n0, r.w0)), 'writable result', 'writable() is not the space behind the unread bytes')

    def is_empty(r, e, s, i, v):
        r.live(e, s, i)
        p = mk_eq(sub(r.w0, r.r0))
        t, f = e.assume(s, as_pred(v), True), e.assume(s, as_pred(v), False)
        ok = (t is None or e.truth(t, p) is True) and (f is None or e.truth(f, p) is False)
        r.need(e, s, i, ok, 'is_empty result', 'is_empty() disagrees with the number of unread bytes')

    def compact(r, e, s, i, v):
        r.live(e, s, i)
        d, sz, rd, w = r.F.get(e, s)
        r.need(e, s, i, eq(e, s, rd, ZERO), 'compact reclaims', 'compact() returns with consumed bytes still in front')

    def clear(r, e, s, i, v):
        d, sz, rd, w = r.F.get(e, s)
        r.need(e, s, i, eq(e, s, rd, w), 'clear empties', 'clear() returns with unread bytes')

    def extend(r, e, s, i, v):
        # the ghost length already includes the appended block
        if not r.content:
            return
        d, sz, rd, w = r.F.get(e, s)
        _, lp, ln = s.auto
        r.need(e, s, i, eq(e, s, sub(w, rd), add(sub(r.w0, r.r0), r.argspan[2])), 'append length',
               'extend_from_slice() does not grow the unread bytes by the size of its argument')
        r.need(e, s, i, eq(e, s, ln, sub(w, rd)) and (le(e, s, ln, ZERO) or eq(e, s, add(d, rd), lp)), 'append content',
               'extend_from_slice() does not leave the old bytes followed by the new ones')

    sp = ('span', ('p', 'arg0.data'), ('p', 'arg0.size'))
    return [
        ('reserve', reserve, None, [n], None),
        ('advance', advance, advance_exc, [n], None),
        ('peek', peek, peek_exc, [n], None),
        ('commit_write', commit, commit_exc, [n], None),
        ('readable_span', span, None, None, None),
        ('writable_span', wspan, None, None, None),
        ('remaining', remaining, None, None, None),
        ('writable', writable, None, None, None),
        ('is_empty', is_empty, None, None, None),
        ('compact', compact, None, None, None),
        ('clear', clear, None, None, None),
        ('extend_from_slice', extend, None, [sp], sp),
    ]


def run(chk, mem, content):
    F = Fields(chk.prog)
    done = set()
    for name, post, exc, args, span in specs():
        if args:
            for a in args:
                pass
        done.add(name)
        run_one(chk, F, name, mem, content, post, exc, args, span)
    # everything else that can change the object
    for m in public_methods(chk.prog, CLS):
        if m['n'] in done or m.get('implicit') or m.get('defaulted') or m.get('ck') == 'dtor':
            continue
        f = chk.prog.functions.get(m['id'])
        if f is None or 'body' not in f:
            continue
        rule = Bytes(F, m['n'], mem, content)
        if m.get('ck') == 'ctor':
            def setup(eng, st, rule=rule):
                rule.d0 = rule.n0 = rule.r0 = rule.w0 = ZERO
                st.auto = ('live', ZERO, ZERO)
                st.facts = {mk_le(sub(('p', 'arg0'), C(PTRMAX))): True}
                for x in (F.r, F.w):
                    pass
            rule.f = (ctor_post, None)
        else:
            def setup(eng, st, rule=rule):
                rule.start(eng, st)
            if content:
                rule.f = (lambda r, e, s, i, v: r.live(e, s, i), None)
        chk.run(rule, f, 200000, this=THIS, args=[arg(i) for i in range(len(f['params']))], setup=setup)


def ctor_post(r, e, s, i, v):
    d, sz, rd, w = r.F.get(e, s)
    r.need(e, s, i, eq(e, s, rd, ZERO) and eq(e, s, w, ZERO), 'starts empty', 'a new buffer does not start empty')
    r.need(e, s, i, le(e, s, arg(0), sz), 'initial room', 'BytesMut(n) does not start with n writable bytes')


def memory(chk):
    run(chk, True, False)


def content(chk):
    run(chk, False, True)
