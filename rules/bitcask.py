"""The key-value store: the entry codec (C30), what an operation leaves behind (C31), compaction (C32)."""
from .common import *
from .worker import Wk
from .uring import THIS, ROOT, W, plain

B = 'bitcask::'
HEAD, MORE = 12, 2007
NEED = ('app', 'needed size')
TOMB = 1


def one(chk, q, n=None):
    got = [f for f in chk.prog.functions.values() if qn(f['q']) == q and 'body' in f and (n is None or len(f['params']) == n)]
    if len(got) != 1:
        raise CheckError('anchor vanished: %s' % q)
    return got[0]


def field_of(prog, cls, test):
    c = prog.classes.get(cls)
    got = [x['n'] for x in (c or {}).get('fields', ()) if test((x.get('t') or '').replace('const ', ''))]
    if len(got) != 1:
        raise CheckError('anchor vanished: a field of %s' % cls)
    return got[0]


# ---------------------------------------------------------------- the entry codec
class Base(Num):
    heap_volatile = False

    def get(self, st, k, d=None):
        return dict(st.auto).get(k, d)

    put = Wk.put


class Decode(Base):
    """bytes of unknown content -> an entry, or the reason why not"""
    label = 'decode'
    heap_volatile = False
    max_states = 200

    def __init__(self, buf):
        super().__init__()
        self.data, self.size = ('fld', ('p', buf), '#data'), ('fld', ('p', buf), '#size')
        self.done = set()

    def byte(self, st, off, n):
        return ('app', 'le', off, C(n))

    @property
    def length(self):
        return self.byte(None, C(4), 8)

    def inside(self, eng, st, ins, p, n):
        p, n = eng.ptr(plain(models.strip(p))), plain(models.strip(n))
        if not eng.numok(p) or not eng.numok(n):
            return self.need(eng, st, ins, False, 'range', 'bytes are read that need not lie in the buffer')
        off = sub(p, self.data)
        ok = ge0(eng, st, off) and (le(eng, st, add(off, n), self.size))
        return self.need(eng, st, ins, ok, 'range', 'bytes are read that need not lie in the buffer')

    def mine(self, p):
        return mentions(p, self.data)

    def on_load(self, eng, st, ins, loc, v):
        if loc and loc[0][0] == '*' and self.mine(loc[0][1]):
            self.inside(eng, st, ins, loc[0][1], ONE)
        return None

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        c = copyop(eng, st, fn, args)
        if c and self.mine(c[1]):
            dst, src, n, how = c
            self.inside(eng, st, ins, src, n)
            if dst[0] == '&':
                off = sub(eng.ptr(plain(models.strip(src))), self.data)
                v = ('app', 'le', off, plain(models.strip(n)))
                eng.unsigned.add(v)
                eng.store(st, dst[1:], v)
            return [(st, dst)]
        if q.startswith('std::span::') and b in ('subspan', 'first', 'last') and args:
            o = eng.load(st, obj[1:]) if obj[0] == '&' else obj
            d, n = eng.project(o, '#data'), models.size_val(eng, o)
            if self.mine(d):
                a = [models.val(eng, st, fn, args, i) for i in range(len(args))]
                k = a[0]
                if b == 'subspan' and len(a) > 1 and a[1] != C(2 ** 64 - 1):
                    self.need(eng, st, ins, le(eng, st, a[0], n) and le(eng, st, a[1], sub(n, a[0])), 'range', 'a part of the buffer is taken that need not lie in it')
                else:
                    self.need(eng, st, ins, le(eng, st, k, n), 'range', 'a part of the buffer is taken that need not lie in it')
            return None
        if q.startswith('crc32c::'):
            a = [models.val(eng, st, fn, args, i) for i in range(len(args))]
            p, n = a[-2], a[-1]
            self.inside(eng, st, ins, p, n)
            r = ('app', 'crc', eng.ptr(plain(models.strip(p))), plain(models.strip(n)))
            eng.unsigned.add(r)
            return [(st, r)]
        if q == 'struct_pack::deserialize':
            v = args[0]
            v = eng.load(st, v[1:]) if v[0] == '&' else v
            if len(args) > 1:
                p, n = models.val(eng, st, fn, args, 0), models.val(eng, st, fn, args, 1)
            else:
                p, n = eng.project(v, '#data'), models.size_val(eng, v)
            self.inside(eng, st, ins, p, n)
            ok = eq(eng, st, p, add(self.data, C(HEAD))) and eq(eng, st, n, self.length)
            self.need(eng, st, ins, ok, 'payload', 'an entry is decoded from other bytes than its payload')
            self.need(eng, st, ins, self.checked(eng, st) is True, 'checksum', 'an entry is decoded whose checksum was not compared')
            self.done.add('payload')
            self.put(st, ok=True)
            return None
        if q == 'struct_pack::get_needed_size' or q == 'struct_pack::serialize_buffer_size::size' or b.startswith('operator unsigned') and 'serialize_buffer_size' in q:
            # what an entry needs that was decoded from `length` bytes
            eng.unsigned.add(NEED)
            if self.get(st, 'ok'):
                st.facts = {**st.facts, mk_le(sub(NEED, self.length)): True, mk_le(sub(NEED, C(PTRMAX))): True}
            return [(st, NEED)]
        return None

    def checked(self, eng, st):
        crc = ('app', 'crc', add(self.data, C(HEAD)), self.length)
        return eng.truth(st, mk_eq(sub(crc, self.byte(st, C(0), 4))))

    def on_exit(self, eng, st, ins, how, val):
        if how != 'ret' or val is None:
            return
        room = sub(self.size, C(HEAD))
        if val[0] == 'err':
            code = plain(models.strip(eng.project(val[1], 'value')))
            few = le(eng, st, self.size, C(HEAD))
            short = few or lt(eng, st, room, self.length)
            if code == C(MORE):
                self.need(eng, st, ins, short, 'more', 'more bytes are asked for although the entry is complete')
                self.done.add('few' if few else 'short')
            else:
                self.need(eng, st, ins, not few, 'more', 'a header that is not complete yet is reported as damage')
                bad = self.checked(eng, st)
                self.need(eng, st, ins, bad is not None, 'more', 'an entry is rejected before its checksum was compared')
                self.done.add('bad' if bad is False else 'undecodable')
        elif val[0] == 'ok':
            self.done.add('ok')
            v = val[1]
            first, second = eng.project(v, 'first'), plain(models.strip(eng.project(v, 'second')))
            ok = eq(eng, st, second, add(C(HEAD), NEED)) or eq(eng, st, second, add(C(HEAD), self.length))
            self.need(eng, st, ins, ok, 'next', 'the next entry is looked for at another place than behind this one')
            self.need(eng, st, ins, any(t[0] in ('sym', 'app') and t[1] == 'struct_pack::deserialize' for t in subterms(first)), 'payload', 'the entry returned is not the one that was decoded')
            self.need(eng, st, ins, bool(self.get(st, 'ok')), 'checksum', 'an entry is returned that was not decoded, or whose checksum was not compared')


class Encode(Base):
    """an entry -> bytes"""
    label = 'encode'
    heap_volatile = False

    def __init__(self):
        super().__init__()
        self.out = None
        self.seen = 0

    def append(self, eng, st, off, n, what):
        self.put(st, pieces=self.get(st, 'pieces', ()) + ((off, n, what),))

    def length(self, st, obj, n=None):
        d = dict(self.get(st, 'lens', ()))
        if n is not None:
            d[obj] = n
            self.put(st, lens=tuple(sorted(d.items(), key=repr)))
        return d.get(obj, ZERO)

    def what(self, eng, st, p):
        if p[0] == '&':
            return plain(models.strip(eng.load(st, p[1:])))
        return ('app', 'bytes at', p)

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if q.startswith('crc32c::'):
            a = [models.val(eng, st, fn, args, i) for i in range(len(args))]
            r = ('app', 'crc', plain(models.strip(a[-2])), plain(models.strip(a[-1])))
            return [(st, r)]
        if q.startswith('std::vector::') and obj and obj[0] == '&' and b in ('insert', 'resize', 'push_back', 'emplace_back', 'append_range'):
            a = [models.val(eng, st, fn, args, i) for i in range(len(args))]
            cur = self.length(st, obj)
            if b == 'insert' and len(a) == 3:
                n = sub(eng.ptr(a[2]), eng.ptr(a[1]))
                self.append(eng, st, cur, n, self.what(eng, st, eng.ptr(a[1])))
                self.length(st, obj, add(cur, n))
            elif b == 'resize':
                self.length(st, obj, plain(models.strip(a[0])))
            else:
                self.length(st, obj, ('app', 'unknown'))
            return None
        c = copyop(eng, st, fn, args)
        if c:
            dst, src, n, how = c
            base = eng.ptr(dst)
            for t in sorted(subterms(base), key=repr):
                if t[0] == 'fld' and t[-1] == '#data':
                    self.append(eng, st, sub(base, t), n, self.what(eng, st, eng.ptr(src)))
            return [(st, dst)]
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how != 'ret':
            return
        self.seen += 1
        got = sorted(self.get(st, 'pieces', ()), key=lambda x: repr(x[0]))
        pay = None
        for off, n, w in got:
            if w[:2] == ('app', 'bytes at') and w[2][0] == 'fld' and w[2][1][:2] == ('sym', 'struct_pack::serialize'):
                pay = w[2][1]
        self.need(eng, st, ins, pay is not None, 'payload', 'the entry itself is not written')
        if pay is None:
            return
        d, z = ('fld', pay, '#data'), ('fld', pay, '#size')
        want = [(C(0), C(4), ('app', 'crc', d, z)), (C(4), C(8), z), (C(HEAD), z, ('app', 'bytes at', d))]
        for i, (off, n, w) in enumerate(want):
            ok = any(eq(eng, st, o, off) and eq(eng, st, m, n) and x == w for o, m, x in got)
            self.need(eng, st, ins, ok and len(got) == 3, ('crc', 'length', 'payload')[i], 'the %s of an entry is not written where it is looked for' % ('checksum of its payload', 'length of its payload', 'payload')[i])


def check_codec(chk):
    f = one(chk, B + 'DataEntry::deserialize')
    r = Decode(f['params'][0]['n'])
    chk.run(r, f)
    for x in ('few', 'short', 'bad', 'ok', 'payload'):
        chk.require(r.label, 'decode|' + x, f['file'], f['line'], x in r.done, 'decoding has no outcome of this kind: ' + x)
    g = one(chk, B + 'DataEntry::serialize')
    r = Encode()
    chk.run(r, g, this=('p', 'this'))
    chk.require(r.label, 'encode|ran', g['file'], g['line'], r.seen > 0, 'encoding never returns')


# ---------------------------------------------------------------- operations on a partition
END = ('app', 'no node')
TS = ('app', 'time')


class Shape:
    """the parts of the store, found by their types"""

    def __init__(self, prog):
        from .tls import accessor
        P, D = B + 'Partition', B + 'DataFile'
        self.keydir = field_of(prog, P, lambda t: 'SimpleKeydir' in t or 'unordered_map' in t and 'ValueLocation' in t)
        self.active = field_of(prog, P, lambda t: 'unique_ptr<' in t and 'DataFile' in t)
        self.file_id = accessor(prog, D, 'file_id')
        self.size = accessor(prog, D, 'size')
        self.handle = field_of(prog, D, lambda t: t.endswith('FileHandle'))
        self.fd = field_of(prog, B + 'FileHandle', lambda t: t == 'int')


class Ops(Base):
    """what an operation wrote, synced, read and changed in the key directory, on each path"""
    label = 'store'
    strict = False
    max_states = 400
    max_head = 60
    watch = ('stale', 'written', 'synced', 'location', 'untouched', 'error', 'found', 'read', 'tombstone', 'rotate', 'overlap', 'borrowed')

    def __init__(self, shape, self_is_file=False):
        super().__init__()
        self.sh = shape
        self.file = self_is_file
        self.outs = set()

    def need(self, eng, st, ins, ok, what, msg, key=None):
        if what in self.watch:
            return super().need(eng, st, ins, ok, what, msg, key)
        return ok

    # ---- the key directory
    @property
    def dirloc(self):
        return ('&', ROOT, self.sh.keydir)

    def node(self, st):
        return ('app', 'node', C(self.get(st, 'gen', 0)))

    def fresh(self, eng, st, ins, it):
        ok = it == self.node(st)
        self.need(eng, st, ins, ok, 'stale', 'an entry of the key directory is used that may have changed or gone since the coroutine was suspended')

    def is_node(self, x):
        return x[:2] == ('app', 'node')

    def find(self, eng, st):
        has = self.get(st, 'has')
        if has is not None:
            return [(st, self.node(st) if has == 'y' else END)]
        s = st.copy()
        self.put(st, has='y')
        self.put(s, has='n')
        st.facts = {**st.facts, mk_eq(self.node(st)): False}
        return [(st, self.node(st)), (s, END)]

    def suspended(self, st):
        self.put(st, gen=self.get(st, 'gen', 0) + 1, has=None)

    def val(self, eng, st, x):
        if x[0] == '&':
            x = eng.load(st, x[1:])
        return plain(models.strip(x))

    def keyed(self, eng, st, ins, x):
        k = self.val(eng, st, x)
        self.need(eng, st, ins, mentions(k, ('p', 'key')) or mentions(x, ('p', 'key')), 'location', 'another key is looked up than the one that was given')

    def on_store(self, eng, st, ins, loc, v):
        if loc and loc[0][0] == '*' and self.is_node(loc[0][1]):
            self.fresh(eng, st, ins, loc[0][1])
            self.put(st, set=self.node(st))
        return None

    def on_load(self, eng, st, ins, loc, v):
        if loc and loc[0][0] == '*' and self.is_node(loc[0][1]):
            self.fresh(eng, st, ins, loc[0][1])
        return None

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if obj == self.dirloc and 'map::' in q:
            a = [models.val(eng, st, fn, args, i) for i in range(len(args))]
            if b in ('find', 'contains', 'count', 'operator[]', 'insert_or_assign', 'try_emplace', 'at') or b == 'erase' and not self.is_node(self.val(eng, st, args[0])):
                self.keyed(eng, st, ins, args[0])
            if b == 'find':
                return self.find(eng, st)
            if b in ('contains', 'count'):
                return [(s, ZERO if x == END else ONE) for s, x in self.find(eng, st)]
            if b in ('end', 'cend'):
                return [(st, END)]
            if b in ('operator[]', 'at'):
                self.put(st, has='y')
                return [(st, ('&', ('*', self.node(st)), 'second'))]
            if b == 'insert_or_assign':
                self.put(st, has='y')
                src = args[1]
                for f in [x['n'] for x in eng.prog.classes[B + 'ValueLocation']['fields']]:
                    eng.store(st, (('*', self.node(st)), 'second', f), eng.load(st, src[1:] + (f,)) if src[0] == '&' else eng.project(src, f))
                self.put(st, set=self.node(st))
                return [(st, eng.sym(st, 'inserted', ins))]
            if b == 'erase':
                x = self.val(eng, st, args[0])
                if self.is_node(x):
                    self.fresh(eng, st, ins, x)
                self.put(st, has='n', erased=True)
                return [(st, eng.sym(st, 'erased', ins))]
            if b in ('clear', 'swap', 'extract', 'merge', 'operator='):
                self.need(eng, st, ins, False, 'untouched', 'the key directory loses other keys')
            return None
        if b in ('operator==', 'operator!=') and len(args) == 2 or b in ('operator==', 'operator!=') and obj is not None and len(args) == 1:
            xs = [self.val(eng, st, x) for x in (([obj] if obj is not None else []) + list(args))]
            if any(x == END or self.is_node(x) for x in xs):
                same = xs[0] == xs[1]
                return [(st, ONE if same == (b == 'operator==') else ZERO)]
        if b in ('operator->', 'operator*') and obj is not None:
            x = self.val(eng, st, obj)
            if self.is_node(x) or x == END:
                self.need(eng, st, ins, x != END, 'found', 'the key is used although it was not found')
                if x != END:
                    self.fresh(eng, st, ins, x)
                return [(st, x if b == 'operator->' else ('&', ('*', x)))]
        if q == B + 'get_current_timestamp':
            return [(st, ('app', 'time', C(st.top.ctx)))]
        if q == B + 'DataEntry::serialize':
            f = lambda n: plain(models.strip(eng.load(st, (obj[1:] if obj[0] == '&' else (('*', obj),)) + (n,))))
            v = ('app', 'packed', f('flag'), f('timestamp_ns'), f('key'), f('value'))
            z = ('fld', v, '#size')
            eng.unsigned.add(z)
            st.facts = {**st.facts, mk_le(sub(C(HEAD), z)): True, mk_le(sub(z, C(2 ** 32 - 1))): True}
            return [(st, v)]
        if q == B + 'DataEntry::deserialize':
            x = args[0]
            x = eng.load(st, x[1:]) if x[0] == '&' else x
            d, n = eng.project(x, '#data'), models.size_val(eng, x)
            s = st.copy()
            r = self.get(st, 'read')
            ok = r is not None and eq(eng, st, eng.ptr(plain(models.strip(d))), r[1]) and eq(eng, st, n, r[2])
            self.need(eng, st, ins, ok, 'read', 'an entry is decoded from other bytes than were read')
            v = ('app', 'entry') + (r or ())
            e = ('app', 'undecodable')
            self.put(s, err=self.get(s, 'err', ()) + (e,))
            self.put(st, entry=v)
            return [(st, ('ok', ('rec', ('app', 'pair'), ((('first',), v), (('second',), ('app', 'next')))))), (s, ('err', e))]
        if q in (B + 'Partition::get_data_file_path', B + 'Partition::get_hint_file_path', B + 'compactor::detail::get_data_file_path', B + 'compactor::detail::get_hint_file_path'):
            return [(st, ('app', 'path', ('s', 'hint' if 'hint' in b else 'data'), plain(models.strip(models.val(eng, st, fn, args, len(args) - 1)))))]
        return None

    # ---- the active file
    def current(self, eng, st):
        """(file id, descriptor, size) of the file that is written"""
        if self.file:
            base = (ROOT,)
        else:
            p = plain(models.strip(eng.load(st, (ROOT, self.sh.active))))
            base = p[1:] if p[0] == '&' else (('*', p),)
        g = lambda *n: plain(models.strip(eng.load(st, base + n, 'int' if n[-1] == self.sh.fd else 'unsigned long')))
        return g(self.sh.file_id), g(self.sh.handle, self.sh.fd), g(self.sh.size)

    def on_suspend(self, eng, st, ins, *rest):
        self.suspended(st)

    def on_await(self, eng, st, ins, v):
        if v[0] != 'task':
            return None
        f = eng.prog.functions.get(v[2])
        q, b = qn(f['q']), base_name(f['q'])
        if q == B + 'FDCache::get_or_open':
            a = [models.strip(x) for x in v[4]]
            p = self.val(eng, st, a[1])
            self.need(eng, st, ins, p[:2] != ('app', 'path') or p == ('app', 'path', ('s', 'data'), self.val(eng, st, a[0])), 'read', 'a file is opened under the number of another file')
            fid = self.val(eng, st, a[0])
            fd = ('app', 'fd of', fid)
            h = ('app', 'handle of', fid)
            held = B + 'FileHandle' in (f.get('rt') or '')
            r = self.fork(eng, st, ins, h if held else fd, b)
            if held:
                eng.store(r[0][0], (('*', h), self.sh.fd), fd)
                r[0][0].facts = {**r[0][0].facts, mk_eq(h): False}
            return r
        if not q.startswith(W + 'async_'):
            return None
        return self.leaf(eng, st, ins, b, [models.strip(x) for x in v[4]])

    def fork(self, eng, st, ins, ok, b):
        self.suspended(st)
        s = st.copy()
        e = ('app', 'failed', ('s', b), C(st.top.ctx), C(ins.idx))
        self.put(s, err=self.get(s, 'err', ()) + (e,))
        return [(st, ('ok', ok)), (s, ('err', e))]

    def span(self, eng, x):
        return eng.ptr(plain(models.strip(eng.project(x, '#data')))), plain(models.strip(models.size_val(eng, x)))

    def leaf(self, eng, st, ins, b, a):
        ok = ('unk', 'void', 0)
        dirty = dict(self.get(st, 'dirty', ()))
        if b in ('async_write_exact_at', 'async_write_exact', 'async_write_at', 'async_write'):
            fd, off = plain(a[0]), plain(a[2]) if len(a) > 2 else None
            d, n = self.span(eng, a[1])
            fid, cfd, size = self.current(eng, st)
            whole = d[0] in ('fld', 'lin') and any(t[:2] == ('app', 'packed') for t in subterms(d))
            self.need(eng, st, ins, b == 'async_write_exact_at' and fd == cfd and whole, 'written', 'something else than an entry is written, to another file than the active one, or only a part of it')
            pk = [t for t in subterms(d) if t[:2] == ('app', 'packed')]
            self.need(eng, st, ins, bool(pk) and eq(eng, st, d, ('fld', pk[0], '#data')) and eq(eng, st, n, ('fld', pk[0], '#size')), 'written', 'an entry is not written as a whole')
            eng.unsigned.add(size)
            st.facts = {**st.facts, mk_le(sub(size, C(PTRMAX))): True}
            if off is not None:
                reserved = le(eng, st, add(off, n), size)
                self.need(eng, st, ins, reserved, 'overlap', 'the place an entry is written to can be taken by another operation while the write is pending', key='overlap|async_write')
                self.need(eng, st, ins, reserved or eq(eng, st, off, size), 'written', 'an entry is written over another one')
            dirty[fd] = True
            s = st.copy()
            e = ('app', 'failed', ('s', b), C(st.top.ctx), C(ins.idx))
            self.suspended(st)
            self.suspended(s)
            self.put(st, wrote=(fid, off, n, pk[0] if pk else None, fd), dirty=tuple(sorted(dirty.items(), key=repr)))
            self.put(s, err=self.get(s, 'err', ()) + (e,), dirty=tuple(sorted(dirty.items(), key=repr)))
            return [(st, ('ok', ok)), (s, ('err', e))]
        if b in ('async_fsync', 'async_fdatasync'):
            r = self.fork(eng, st, ins, ok, b)
            dirty[plain(a[0])] = False
            self.put(r[0][0], dirty=tuple(sorted(dirty.items(), key=repr)))
            return r
        if b == 'async_ftruncate':
            fid, cfd, size = self.current(eng, st)
            self.need(eng, st, ins, plain(a[0]) == cfd and eq(eng, st, a[1], size), 'rotate', 'a file is cut off elsewhere than behind its last entry')
            return self.fork(eng, st, ins, ok, b)
        if b == 'async_close':
            self.need(eng, st, ins, dirty.get(plain(a[0])) is False, 'rotate', 'a data file is closed before what was written to it has reached the disk')
            return self.fork(eng, st, ins, ok, b)
        if b in ('async_read_exact_at', 'async_read_at', 'async_read'):
            r = self.fork(eng, st, ins, ok, b)
            d, n = self.span(eng, a[1])
            self.need(eng, st, ins, b == 'async_read_exact_at', 'read', 'only a part of an entry may be read')
            self.put(r[0][0], read=(plain(a[0]), d, n, plain(a[2]) if len(a) > 2 else None))
            return r
        if b == 'async_openat':
            return self.fork(eng, st, ins, ('app', 'fd', self.val(eng, st, a[0])), b)
        return self.fork(eng, st, ins, ok, b)

    def own(self, st, e):
        return False

    # ---- what is left behind
    def on_exit(self, eng, st, ins, how, val):
        if how != 'coret' or val is None:
            return
        if val[0] == 'err':
            self.outs.add('err')
            e = plain(models.strip(val[1]))
            known = self.get(st, 'err', ())
            ok = e in known
            for n in ('value', 'category'):
                x = plain(models.strip(eng.project(val[1], n)))
                ok = ok or any(mentions(x, k) or x == C(2005) and k == ('app', 'damaged') for k in known)
            self.need(eng, st, ins, ok or self.own(st, e), 'error', 'another error is reported than the one of the operation that failed')
            self.failed(eng, st, ins)
        else:
            self.done(eng, st, ins, val[1])

    def failed(self, eng, st, ins):
        self.need(eng, st, ins, self.get(st, 'set') is None, 'untouched', 'an operation that failed has changed where a key is found')

    def durable(self, eng, st, ins, fd):
        on = None
        for k, v in st.facts.items():
            if any(t[0] == 'init' and t[1][-1] == 'sync_on_write' for t in subterms(k)):
                on = eng.truth(st, k)
        dirty = dict(self.get(st, 'dirty', ()))
        off = any(eng.truth(st, mk_eq(t)) is True for k in st.facts for t in subterms(k) if t[0] == 'init' and t[1][-1] == 'sync_on_write')
        self.need(eng, st, ins, off or dirty.get(fd) is False, 'synced', 'success is reported before the entry reached the disk, although every write is to be synced')


class Write(Ops):
    def done(self, eng, st, ins, v):
        self.outs.add('ok')
        w = self.get(st, 'wrote')
        self.need(eng, st, ins, w is not None, 'written', 'success is reported although nothing was written')
        if w is None:
            return
        fid, off, n, pk, fd = w
        self.durable(eng, st, ins, fd)
        a, b = (plain(models.strip(eng.project(v, x))) for x in ('first', 'second'))
        self.need(eng, st, ins, off is not None and eq(eng, st, a, off) and eq(eng, st, b, n), 'location', 'the place told is not where the entry was written')
        size = self.current(eng, st)[2]
        self.need(eng, st, ins, off is not None and (eq(eng, st, size, add(off, n))), 'location', 'the next entry would not be written behind this one')


class Put(Ops):
    def done(self, eng, st, ins, v):
        self.outs.add('ok')
        w = self.get(st, 'wrote')
        self.need(eng, st, ins, w is not None, 'written', 'success is reported although nothing was written')
        if w is None:
            return
        fid, off, n, pk, fd = w
        self.durable(eng, st, ins, fd)
        if pk is not None:
            self.need(eng, st, ins, pk[2] == ZERO, 'tombstone', 'a value is written as a tombstone')
            self.need(eng, st, ins, mentions(pk[4], ('p', 'key')) and mentions(pk[5], ('p', 'value')), 'written', 'another key or value is written than the one that was given')
        x = self.get(st, 'set')
        self.need(eng, st, ins, x is not None and self.get(st, 'has') != 'n', 'location', 'success is reported although the key does not lead to what was written')
        if x is None:
            return
        g = lambda f: plain(models.strip(eng.load(st, (('*', x), 'second', f))))
        ok = eq(eng, st, g('file_id'), fid) and eq(eng, st, g('offset'), off) and eq(eng, st, g('total_size'), n)
        self.need(eng, st, ins, ok, 'location', 'the key leads to another place than where its value was written')
        self.need(eng, st, ins, pk is None or g('timestamp_ns') == pk[3], 'location', 'the time of the key is not the time of what was written')


class Del(Ops):
    def done(self, eng, st, ins, v):
        w = self.get(st, 'wrote')
        self.need(eng, st, ins, self.get(st, 'set') is None and (self.get(st, 'erased') or w is None), 'untouched', 'a key that was deleted is still found')
        if w is None:
            self.outs.add('none')
            self.need(eng, st, ins, self.get(st, 'has0') == 'n' and not self.get(st, 'erased'), 'tombstone', 'a key is deleted without a tombstone: it is back after a restart')
            return
        self.outs.add('ok')
        fid, off, n, pk, fd = w
        self.durable(eng, st, ins, fd)
        if pk is not None:
            self.need(eng, st, ins, pk[2][0] == 'c' and pk[2][1] & TOMB == TOMB, 'tombstone', 'a key is deleted without a tombstone: it is back after a restart')
            self.need(eng, st, ins, mentions(pk[4], ('p', 'key')), 'tombstone', 'the tombstone is not that of the key')

    def find(self, eng, st):
        r = super().find(eng, st)
        for s, x in r:
            if self.get(s, 'has0') is None:
                self.put(s, has0='n' if x == END else 'y')
        return r


class Get(Ops):
    def on_branch(self, *a):
        return None

    def inner(self, prog):
        """variables inside expressions (KIO_TRY): they are gone when the expression is"""
        if not hasattr(self, '_inner'):
            self._inner = {v['id'] for f in prog.functions.values() if 'body' in f and qn(f['q']).startswith(B) for n in ir.walk(f['body']) if n.get('k') == 'stmtexpr'
                           for d in ir.walk(n) if d.get('k') == 'decl' for v in d['v']}
        return self._inner

    def leaf(self, eng, st, ins, b, a):
        if 'read' in b and plain(a[0])[:2] == ('app', 'fd of'):
            h = ('app', 'handle of', plain(a[0])[2])
            gone = self.inner(eng.prog)
            vs = [(loc[0], v) for loc, v in st.mem.items() if loc[0][0] == 'v' and v is not None and not (isinstance(loc[0][2], int) and loc[0][2] in gone)]
            kept = {x[1] for x, v in vs if isinstance(x[2], int) and plain(models.strip(v)) == plain(a[0])}
            # a temporary lives as long as its expression: not when the descriptor was kept in a variable
            held = any(mentions(v, h) and (isinstance(x[2], int) or x[1] not in kept) for x, v in vs)
            self.need(eng, st, ins, held, 'borrowed', 'a descriptor of the cache is read from that may be closed while the read is pending')
        return super().leaf(eng, st, ins, b, a)

    def done(self, eng, st, ins, v):
        x = v
        if x == ('&', ('glob', 'std::nullopt')) or x == ('glob', 'std::nullopt') or x[:2] == ('app', 'nullopt'):
            x = None
        ent = self.get(st, 'entry')
        tomb = None
        if ent is not None:
            flag = ('fld', ent, 'flag')
            for k, t in st.facts.items():
                if mentions(k, flag):
                    tomb = eng.truth(st, mk_eq(next(y for y in subterms(k) if y[0] == 'app' and y[1] == '&' and mentions(y, flag)))) if any(y[0] == 'app' and y[1] == '&' for y in subterms(k)) else tomb
        if x is None:
            self.outs.add('none' if ent is None else 'dead')
            self.need(eng, st, ins, self.get(st, 'has0') == 'n' or tomb is False, 'found', 'a key that is there is reported missing')
            return
        self.outs.add('ok')
        x = self.val(eng, st, x)
        self.need(eng, st, ins, ent is not None and x == ('fld', ent, 'value'), 'read', 'another value is returned than the one that was read')
        self.need(eng, st, ins, tomb is True, 'tombstone', 'the value of a tombstone is returned')
        r = self.get(st, 'read')
        if r is not None:
            n = self.get(st, 'node0')
            g = lambda f: ('init', (('*', n), 'second', f), 0)
            ok = n is not None and eq(eng, st, r[3], g('offset')) and eq(eng, st, r[2], g('total_size')) and r[0] == ('app', 'fd of', g('file_id'))
            self.need(eng, st, ins, ok, 'read', 'an entry is read from another place than the key leads to')

    def find(self, eng, st):
        r = super().find(eng, st)
        for s, x in r:
            if self.get(s, 'has0') is None:
                self.put(s, has0='n' if x == END else 'y', node0=None if x == END else x)
        return r


class Cache(Base):
    """the cache of open files: who misses, opens and enters a file must not replace what another coroutine entered meanwhile"""
    label = 'store'
    strict = False

    def __init__(self, f, field):
        super().__init__()
        self.field = field
        self.id = next(('p', p['n']) for p in f['params'] if 'path' not in p['t'])
        self.outs = set()

    def node(self, st):
        return ('app', 'node', C(self.get(st, 'gen', 0)))

    def val(self, eng, st, x):
        return plain(models.strip(eng.load(st, x[1:]) if x[0] == '&' else x))

    def on_suspend(self, eng, st, ins, *rest):
        self.put(st, gen=self.get(st, 'gen', 0) + 1, has=None)

    def on_await(self, eng, st, ins, v):
        if v[0] != 'task':
            return None
        f = eng.prog.functions.get(v[2])
        if not qn(f['q']).startswith(W + 'async_'):
            return None
        self.on_suspend(eng, st, ins)
        s = st.copy()
        if base_name(f['q']) == 'async_openat':
            self.put(st, opened=True)
        return [(st, ('ok', ('app', 'opened', C(st.top.ctx)))), (s, ('err', ('app', 'failed')))]

    def find(self, eng, st):
        has = self.get(st, 'has')
        if has is not None:
            return [(st, self.node(st) if has == 'y' else END)]
        s = st.copy()
        self.put(st, has='y')
        self.put(s, has='n')
        st.facts = {**st.facts, mk_eq(self.node(st)): False}
        return [(st, self.node(st)), (s, END)]

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if obj is not None and obj[0] == '&' and obj[-1] == self.field and 'map::' in q:
            if b in ('find', 'contains', 'count', 'operator[]', 'insert_or_assign', 'emplace', 'try_emplace', 'at'):
                k = models.val(eng, st, fn, args, 0)
                k = self.val(eng, st, k)
                self.need(eng, st, ins, k == self.id, 'found', 'the cache is asked for another file', key='cache|file')
            if b == 'find':
                return self.find(eng, st)
            if b in ('contains', 'count'):
                return [(s, ZERO if x == END else ONE) for s, x in self.find(eng, st)]
            if b in ('end', 'cend'):
                return [(st, END)]
            if b in ('operator[]', 'insert_or_assign'):
                if self.get(st, 'has') != 'y':
                    self.need(eng, st, ins, self.get(st, 'has') == 'n', 'replaced', 'an entry of the cache that another coroutine made meanwhile may be replaced: its descriptor is closed while in use', key='cache|replaced')
                self.put(st, has='y', entered=True)
            if b in ('emplace', 'try_emplace', 'insert'):
                self.put(st, has='y', entered=True)
            return None
        if b in ('operator==', 'operator!=') and len(args) + (obj is not None) == 2:
            xs = [self.val(eng, st, x) for x in (([obj] if obj is not None else []) + list(args))]
            if any(x == END or x[:2] == ('app', 'node') for x in xs):
                return [(st, ONE if (xs[0] == xs[1]) == (b == 'operator==') else ZERO)]
        if b in ('operator->', 'operator*') and obj is not None:
            x = self.val(eng, st, obj)
            if x[:2] == ('app', 'node'):
                self.need(eng, st, ins, x == self.node(st), 'stale', 'an entry of the cache is used that may have gone since the coroutine was suspended', key='cache|stale')
                return [(st, x if b == 'operator->' else ('&', ('*', x)))]
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how == 'coret' and val is not None:
            self.outs.add('err' if val[0] == 'err' else 'opened' if self.get(st, 'opened') else 'hit')


class Seal(Ops):
    def done(self, eng, st, ins, v):
        self.outs.add('ok')


def check_ops(chk):
    sh = Shape(chk.prog)
    P = B + 'Partition::'
    for q, cls, mine, outs in ((B + 'DataFile::async_write', Write, True, ('ok', 'err')), (P + 'put', Put, False, ('ok', 'err')), (P + 'del', Del, False, ('ok', 'err', 'none')),
                               (P + 'get', Get, False, ('ok', 'err', 'none')), (P + 'seal_active_file', Seal, False, ('ok', 'err'))):
        f = one(chk, q)
        r = cls(sh, mine)
        r.watch = tuple(x for x in r.watch if mine or x != 'overlap')
        chk.run(r, f, this=THIS)
        for o in outs:
            chk.require(r.label, q + '|outcome ' + o, f['file'], f['line'], o in r.outs, 'the operation has no such outcome: ' + o)


    f = one(chk, B + 'FDCache::get_or_open')
    r = Cache(f, field_of(chk.prog, B + 'FDCache', lambda t: 'map<' in t))
    chk.run(r, f, this=THIS)
    for o in ('ok', 'hit', 'err'):
        chk.require(r.label, f['q'] + '|outcome ' + o, f['file'], f['line'], o in r.outs or o == 'ok' and 'opened' in r.outs, 'the cache has no such outcome: ' + o)


# ---------------------------------------------------------------- compaction and recovery
class Ctx:
    """the parts of a compaction"""

    def __init__(self, prog):
        C_ = B + 'compactor::CompactionContext'
        c = prog.classes.get(C_)
        if c is None:
            raise CheckError('anchor vanished: ' + C_)
        t = lambda x: (x.get('t') or '').replace('const ', '')
        self.keydir = field_of(prog, C_, lambda x: 'SimpleKeydir' in x or 'unordered_map' in x and 'ValueLocation' in x)
        chars = [x['n'] for x in c['fields'] if t(x) in ('std::vector<char>', 'std::vector<char, std::allocator<char>>')]
        if len(chars) != 2:
            raise CheckError('anchor vanished: the batches of ' + C_)
        self.data, self.hint = chars
        self.moves = field_of(prog, C_, lambda x: x.startswith('std::vector<') and 'KeyDirUpdate' in x)
        self.decode = field_of(prog, C_, lambda x: x.endswith('BytesMut'))
        self.dst = 'dst_file_id'
        self.offset = 'current_data_offset'
        for n in (self.dst, self.offset):
            if n not in [x['n'] for x in c['fields']]:
                raise CheckError('anchor vanished: %s of %s' % (n, C_))


class Compact(Ops):
    label = 'compaction'
    watch = ('order', 'matched', 'location', 'live', 'source', 'damaged', 'error', 'offset', 'tombstone', 'key')

    def __init__(self, prog, f):
        super().__init__(None)
        self.cx = Ctx(prog)
        self.ctx = ('*', ('p', next(p['n'] for p in f['params'] if 'CompactionContext' in p['t'])))
        self.ints = [('p', p['n']) for p in f['params'] if p['t'].replace('const ', '') == 'int']
        self.ids = [('p', p['n']) for p in f['params'] if p['t'].replace('const ', '') in ('uint64_t', 'std::uint64_t', 'unsigned long')]
        self.did = 0

    @property
    def dirloc(self):
        return ('init', (self.ctx, self.cx.keydir), 0)

    def keyed(self, eng, st, ins, x):
        pass

    def find(self, eng, st):
        # another key, perhaps: another node
        self.suspended(st)
        return super().find(eng, st)

    def suspended(self, st):
        self.put(st, gen=(self.get(st, 'gen', 0) + 1) % 3, has=None)
        n = self.node(st)
        st.facts = {k: v for k, v in st.facts.items() if not mentions(k, n) and not any(n in y for x in subterms(k) if x[0] in ('init', 'phi') for y in x if isinstance(y, tuple) and y and isinstance(y[0], tuple))}
        for l in [l for l in st.mem if l[0] == ('*', n)]:
            del st.mem[l]

    def size_of(self, eng, st, batch):
        return plain(models.strip(models.size_val(eng, eng.load(st, (self.ctx, batch)))))

    def failing(self, s, what, cat=1, value=None):
        e = ('app', 'failed') + tuple(what)
        self.put(s, err=tuple(x for x in self.get(s, 'err', ()) if x != e) + (e,))
        return ('err', ('rec', e, ((('category',), C(cat)),) + (((('value',), C(value)),) if value is not None else ())))

    def fork(self, eng, st, ins, ok, b):
        self.suspended(st)
        s = st.copy()
        r = self.failing(s, (('s', b), C(st.top.ctx), C(ins.idx)))
        return [(st, ('ok', ok)), (s, r)]

    def failed(self, eng, st, ins):
        pass

    def bounds(self):
        # the copies end within what a file offset can tell
        a, b = (('init', (self.ctx, self.cx.offset), 0), ('init', (self.ctx, self.cx.data, '#size'), 0))
        return {mk_le(sub(add(a, b), C(PTRMAX))): True, mk_le(scale(a, -1)): True, mk_le(scale(b, -1)): True}


class Commit(Compact):
    """a batch reaches the destination, then the keys lead there"""

    def leaf(self, eng, st, ins, b, a):
        r = self.fork(eng, st, ins, ('unk', 'void', 0), b)
        if b.startswith('async_write'):
            d, n = self.span(eng, a[1])
            for i, batch in enumerate((self.cx.data, self.cx.hint)):
                v = eng.load(st, (self.ctx, batch))
                if eq(eng, st, d, eng.ptr(plain(models.strip(eng.project(v, '#data'))))) and eq(eng, st, n, self.size_of(eng, st, batch)):
                    self.need(eng, st, ins, len(self.ints) != 2 or plain(a[0]) == self.ints[i], 'order', 'a batch is written to the wrong file')
                    self.need(eng, st, ins, b == 'async_write_exact', 'order', 'only a part of a batch may be written')
                    self.put(r[0][0], **{'out%d' % i: True})
        return r

    def on_store(self, eng, st, ins, loc, v):
        if loc and loc[0][0] == '*' and self.is_node(loc[0][1]):
            self.fresh(eng, st, ins, loc[0][1])
            self.did += 1
            self.need(eng, st, ins, bool(self.get(st, 'out0') and self.get(st, 'out1')), 'order', 'a key leads to its copy before the copy and its hint were written')
            for f in ('file_id', 'offset'):
                loc_ = (('*', self.node(st)), 'second', f)
                same = False
                for k, x in st.facts.items():
                    if x is True and k[0] == 'eq' and k[1][0] == 'lin' and k[1][1] == 0 and len(k[1][2]) == 2:
                        a, b = (y for y, _ in k[1][2])
                        here = [y for y in (a, b) if y[0] in ('init', 'phi') and loc_ in y]
                        same = same or len(here) == 1 and not any(mentions(y, self.node(st)) for y in (a, b) if y != here[0])
                self.need(eng, st, ins, same, 'matched', 'a key is led to the copy although it may have been written or moved again meanwhile: its %s is not compared' % f)
        return None

    def done(self, eng, st, ins, v):
        self.outs.add('ok')
        if not self.get(st, 'out0') and not self.get(st, 'out1'):
            self.need(eng, st, ins, eng.truth(st, mk_eq(('init', (self.ctx, self.cx.data, '#size'), 0))) is True or eng.truth(st, mk_eq(self.size_of(eng, st, self.cx.data))) is True, 'order', 'a batch is done with that was not written')
            return
        self.need(eng, st, ins, bool(self.get(st, 'out0') and self.get(st, 'out1')), 'order', 'a batch is done with that was not written')
        o, n = ('init', (self.ctx, self.cx.offset), 0), ('init', (self.ctx, self.cx.data, '#size'), 0)
        at = plain(models.strip(eng.load(st, (self.ctx, self.cx.offset), 'unsigned long')))
        self.need(eng, st, ins, eq(eng, st, at, add(o, n)), 'offset', 'the next copies are taken to be at another place than the end of the destination')
        self.need(eng, st, ins, all(self.size_of(eng, st, x) == ZERO for x in (self.cx.data, self.cx.hint)), 'order', 'a batch that was written is written again')


class Parsed(Compact):
    """an entry of the source is kept if, and only if, its key still leads to it"""

    def __init__(self, prog, f):
        super().__init__(prog, f)
        P = f['params']
        self.entry = ('*', ('p', next(p['n'] for p in P if 'DataEntry' in p['t'])))
        self.raw = ('p', next(p['n'] for p in P if 'span<' in p['t']))
        if len(self.ids) != 3:
            raise CheckError('anchor vanished: the parameters of process_parsed_entry')
        self.len, self.at, self.src = self.ids

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        a = lambda: [models.val(eng, st, fn, args, i) for i in range(len(args))]
        if obj == ('&', self.ctx, self.cx.data) and b in ('insert', 'append_range', 'push_back', 'resize'):
            x = a()
            if b == 'insert' and len(x) == 3:
                d, n = eng.ptr(x[1]), sub(eng.ptr(x[2]), eng.ptr(x[1]))
                ok = eq(eng, st, d, ('fld', self.raw, '#data')) and eq(eng, st, n, self.len)
                self.need(eng, st, ins, ok and self.get(st, 'kept') is None, 'live', 'another thing than the entry is copied')
                self.put(st, kept=True)
            return None
        if q == 'struct_pack::serialize_to':
            h = args[-1]
            g = (lambda n: plain(models.strip(eng.load(st, h[1:] + (n,))))) if h[0] == '&' else (lambda n: plain(models.strip(eng.project(h, n))))
            self.put(st, hint=(g('timestamp_ns'), g('entry_pos'), g('total_sz'), g('key'), models.strip(args[0]) == ('&', self.ctx, self.cx.hint)))
            return [(st, ('unk', 'void', 0))]
        if obj == ('&', self.ctx, self.cx.moves) and b in ('emplace_back', 'push_back'):
            x = args
            if len(x) == 4:
                l = x[1]
                g = (lambda n: plain(models.strip(eng.load(st, l[1:] + (n,))))) if l[0] == '&' else (lambda n: plain(models.strip(eng.project(l, n))))
                v = [self.val(eng, st, y) for y in (x[0], x[2], x[3])]
                self.put(st, move=(v[0], g('file_id'), g('offset'), g('total_size'), g('timestamp_ns'), v[1], v[2]))
            elif len(x) == 1:
                m = x[0]
                g = (lambda *n: plain(models.strip(eng.load(st, m[1:] + n)))) if m[0] == '&' else (lambda *n: plain(models.strip(eng.project(m, n[0]))) if len(n) == 1 else ('unk', 'x', 0))
                self.put(st, move=(g('key'), g('new_loc', 'file_id'), g('new_loc', 'offset'), g('new_loc', 'total_size'), g('new_loc', 'timestamp_ns'), g('expected_file_id'), g('expected_offset')))
            return None
        return super().on_call(eng, st, ins, fn, obj, args)

    def on_exit(self, eng, st, ins, how, val):
        if how != 'ret' or st.frames[1:]:
            return
        key = lambda k: mentions(k, ('init', (self.entry, 'key'), 0)) or mentions(k, self.entry)
        t = ('init', (self.entry, 'timestamp_ns'), 0)
        n = lambda f: ('init', (('*', self.node(st)), 'second', f), 0)
        pairs = ((n('file_id'), self.src), (n('offset'), self.at), (n('timestamp_ns'), t))
        if not self.get(st, 'kept'):
            self.outs.add('dropped')
            gone = self.get(st, 'has') == 'n' or any(eng.truth(st, mk_eq(sub(x, y))) is False for x, y in pairs)
            self.need(eng, st, ins, gone, 'live', 'an entry is left behind although its key still leads to it')
            self.need(eng, st, ins, self.get(st, 'hint') is None and self.get(st, 'move') is None, 'live', 'an entry is announced that was not copied')
            return
        self.outs.add('kept')
        live = self.get(st, 'has') == 'y' and all(eng.truth(st, mk_eq(sub(x, y))) is True for x, y in pairs[:2])
        self.need(eng, st, ins, live, 'live', 'an entry is kept although its key does not lead to it')
        at = add(('init', (self.ctx, self.cx.offset), 0), ('init', (self.ctx, self.cx.data, '#size'), 0))
        h, m = self.get(st, 'hint'), self.get(st, 'move')
        ok = h is not None and h[0] == t and eq(eng, st, h[1], at) and eq(eng, st, h[2], self.len) and key(h[3]) and h[4]
        self.need(eng, st, ins, ok, 'location', 'the hint of a copy does not tell where it is, how long, from when or of which key')
        ok = m is not None and key(m[0]) and m[1] == ('init', (self.ctx, self.cx.dst), 0) and eq(eng, st, m[2], at) and eq(eng, st, m[3], self.len) and m[4] == t
        self.need(eng, st, ins, ok, 'location', 'a key is to be led to another place than its copy')
        self.need(eng, st, ins, m is not None and m[5] == self.src and m[6] == self.at, 'matched', 'a key is to be compared with another place than the entry was found at')


class Stream(Compact):
    """the buffer of a compaction, by what was read into it and taken from it"""
    max_states = 600
    numeric = False

    def __init__(self, prog, f):
        super().__init__(prog, f)
        self.buf = ('&', self.ctx, self.cx.decode)

    def suspended(self, st):
        pass

    def left(self, st):
        return ('app', 'left', C(self.get(st, 'turn', 0)))

    def part(self, st, which):
        return ('fld', ('app', which, C(self.get(st, 'turn', 0))), '#data')

    def turn(self, st):
        t = C((self.get(st, 'turn', 0) + 1) % 3)
        self.put(st, turn=t[1])
        new = [('app', x, t) for x in ('left', 'gone', 'front', 'back', 'size', 'entry')]
        st.facts = {k: v for k, v in st.facts.items() if not any(mentions(k, x) for x in new)}

    def on_call(self, eng, st, ins, fn, obj, args):
        b = base_name(fn['q'])
        if obj is not None and obj == self.buf:
            a = [plain(models.strip(models.val(eng, st, fn, args, i))) for i in range(len(args))]
            left = self.left(st)
            eng.unsigned.add(left)
            span = lambda at, n: ('rec', at[1], ((('#data',), at), (('#size',), n)))
            if b == 'remaining':
                return [(st, left)]
            if b == 'is_empty':
                return [(st, eng.sym(st, 'empty', ins, 'bool'))]
            if b == 'readable_span':
                return [(st, span(self.part(st, 'front'), left))]
            if b == 'writable_span':
                return [(st, span(self.part(st, 'back'), eng.sym(st, 'room', ins, 'unsigned long')))]
            if b == 'advance':
                self.need(eng, st, ins, self.get(st, 'decoded') is not None and a[0] == self.get(st, 'decoded'), 'offset', 'another part of the buffer is passed over than the entry that was read')
                self.need(eng, st, ins, self.get(st, 'seen') is True, 'live', 'an entry is passed over without a look at it')
                self.put(st, decoded=None, seen=None)
                self.turn(st)
                return [(st, ('unk', 'void', 0))]
            if b == 'commit_write':
                n = self.get(st, 'got')
                self.need(eng, st, ins, n is not None and eq(eng, st, a[0], n), 'offset', 'another part of the buffer is taken for the file than was read')
                self.need(eng, st, ins, self.get(st, 'clean'), 'offset', 'what was left of another file is taken for a part of this one')
                self.put(st, got=None)
                self.turn(st)
                return [(st, ('unk', 'void', 0))]
            if b in ('should_compact',):
                return [(st, eng.sym(st, b, ins, 'bool'))]
            if b == 'clear':
                self.put(st, decoded=None, got=None, clean=True)
            if b in ('clear', 'compact', 'reserve'):
                return [(st, ('unk', 'void', 0))]
            raise CheckError('the compaction uses its buffer in a way that is not understood: ' + b)
        return super().on_call(eng, st, ins, fn, obj, args)

    def commit(self, eng, st, ins, v, good):
        fds = tuple(plain(models.strip(x)) for x in v[4][1:] if plain(models.strip(x)) in self.ints)
        self.need(eng, st, ins, list(fds) == self.ints[-2:], 'order', 'a batch is written to the wrong file')
        r = self.fork(eng, st, ins, ('unk', 'void', 0), 'commit_batch')
        for s, x in r:
            self.put(s, dirty=tuple((x, True) for x in fds))
        self.put(r[0][0], pending=False)
        return r


class Entries(Stream):
    """every entry that was read is looked at, at the place it was read from"""

    def on_call(self, eng, st, ins, fn, obj, args):
        q = qn(fn['q'])
        if q == B + 'compactor::detail::process_parsed_entry':
            a = [plain(models.strip(models.val(eng, st, fn, args, i))) if i in (2, 3, 4) else args[i] for i in range(len(args))]
            n = self.get(st, 'decoded')
            self.need(eng, st, ins, n is not None and a[2] == n, 'offset', 'an entry is taken to be longer or shorter than it is')
            self.need(eng, st, ins, eq(eng, st, add(a[3], self.left(st)), self.ids[0]) or a[3] == ('app', 'wrap', ('s', '-'), self.ids[0], self.left(st)), 'offset', 'an entry is looked for at another place of the source file than it was read from')
            self.need(eng, st, ins, a[4] == self.ids[1], 'source', 'an entry is taken for one of another file')
            d, _ = self.span(eng, a[5] if a[5][0] != '&' else eng.load(st, a[5][1:]))
            self.need(eng, st, ins, d == self.get(st, 'front'), 'offset', 'another part of the buffer is copied than the entry')
            self.put(st, seen=True, pending=True)
            return [(st, ('unk', 'void', 0))]
        if q == B + 'DataEntry::deserialize':
            x = args[0] if args[0][0] != '&' else eng.load(st, args[0][1:])
            d, n = self.span(eng, x)
            self.need(eng, st, ins, self.get(st, 'decoded') is None, 'live', 'an entry is not passed over')
            self.need(eng, st, ins, d == self.part(st, 'front') and n == self.left(st), 'offset', 'another part of the buffer is read than what is left of it')
            out = []
            for what, val in (('more', MORE), ('damaged', 2005)):
                s = st.copy()
                self.put(s, ended=what)
                if what == 'damaged':
                    self.put(s, err=(('app', what),))
                out.append((s, ('err', ('rec', ('app', what), ((('category',), C(6)), (('value',), C(val)))))))
            size = ('app', 'size', C(self.get(st, 'turn', 0)))
            eng.unsigned.add(size)
            self.put(st, decoded=size, front=d, seen=None)
            return [(st, ('ok', ('rec', ('app', 'pair'), ((('first',), ('app', 'entry')), (('second',), size)))))] + out
        return super().on_call(eng, st, ins, fn, obj, args)

    def on_await(self, eng, st, ins, v):
        if v[0] == 'task' and qn(eng.prog.functions[v[2]]['q']) == B + 'compactor::detail::commit_batch':
            return self.commit(eng, st, ins, v, True)
        return super().on_await(eng, st, ins, v)

    def done(self, eng, st, ins, v):
        self.outs.add('ok')
        self.need(eng, st, ins, not [e for e in self.get(st, 'err', ()) if e[1] == 'failed'], 'error', 'a failed write of a batch is not reported')
        self.need(eng, st, ins, self.get(st, 'ended') == 'more', 'error', 'the entries that follow are passed over and nobody is told')
        self.need(eng, st, ins, self.get(st, 'decoded') is None, 'live', 'an entry is not passed over')


class One(Stream):
    """a source file is removed only when everything in it that is alive is safe"""
    numeric = True

    def own(self, st, e):
        return not self.get(st, 'err') and e[:2] != ('app', 'failed')

    def __init__(self, prog, f):
        super().__init__(prog, f)
        self.src = self.ids[0] if len(self.ids) == 1 else None
        self.removed = self.parsed = 0

    def on_await(self, eng, st, ins, v):
        if v[0] == 'task':
            q = qn(eng.prog.functions[v[2]]['q'])
            if q == B + 'compactor::detail::commit_batch':
                return self.commit(eng, st, ins, v, True)
            if q == B + 'compactor::detail::parse_entries_from_buffer':
                self.parsed += 1
                a = [plain(models.strip(x)) for x in v[4]]
                at = self.get(st, 'at')
                self.need(eng, st, ins, at is not None and (eq(eng, st, a[1], at) or a[1] in self.get(st, 'sum', ())), 'offset', 'the entries of a file are looked for at another place of it than they were read from')
                self.need(eng, st, ins, a[2] == self.src, 'source', 'the entries of a file are taken for those of another one')
                self.need(eng, st, ins, a[3:5] == self.ints[-2:], 'order', 'a batch is written to the wrong file')
                self.need(eng, st, ins, self.get(st, 'got') is None, 'offset', 'what was read is not looked at')
                self.put(st, pending=True, at=None, sum=None, dirty=tuple((x, True) for x in a[3:5]))
                self.suspended(st)
                s, t = st.copy(), st.copy()
                self.put(s, damaged=True)
                return [(st, ('ok', ('unk', 'void', 0))), (s, ('err', ('rec', ('app', 'damaged'), ((('category',), C(6)), (('value',), C(2005)))))), (t, self.failing(t, (('s', 'parse'), C(st.top.ctx), C(ins.idx))))]
        return super().on_await(eng, st, ins, v)

    def leaf(self, eng, st, ins, b, a):
        d = dict(self.get(st, 'dirty', ()))
        if b == 'async_unlink_at':
            p = self.val(eng, st, a[1])
            self.removed += 1
            self.need(eng, st, ins, p[:2] == ('app', 'path') and p[3] == self.src, 'source', 'another file than the source is removed')
            self.need(eng, st, ins, not self.get(st, 'pending'), 'source', 'the source is removed before the last copies were written')
            self.need(eng, st, ins, all(x is False for x in d.values()) and bool(d), 'source', 'the source is removed before the copies and their hints are on disk')
            self.need(eng, st, ins, not [e for e in self.get(st, 'err', ()) if e[2] != ('s', 'async_unlink_at')], 'source', 'the source is removed although the compaction failed')
            last = self.get(st, 'last')
            self.need(eng, st, ins, self.get(st, 'damaged') or last is not None and eng.truth(st, mk_eq(last)) is True, 'source', 'the source is removed before its end was reached')
            self.need(eng, st, ins, not self.get(st, 'damaged'), 'damaged', 'the source is removed although entries behind a damaged one were not looked at', key='damaged|unlink')
        r = self.fork(eng, st, ins, ('app', 'fd', ('s', b)) if b == 'async_openat' else eng.sym(st, b, ins, 'unsigned long') if b == 'async_read_at' else ('unk', 'void', 0), b)
        if b in ('async_fsync', 'async_fdatasync'):
            d[plain(a[0])] = False
            self.put(r[0][0], dirty=tuple(sorted(d.items(), key=repr)))
        if b.startswith('async_write'):
            d[plain(a[0])] = True
            for s, x in r:
                self.put(s, dirty=tuple(sorted(d.items(), key=repr)))
        if b == 'async_read_at':
            n = r[0][1][1]
            d0, room = self.span(eng, a[1])
            self.need(eng, st, ins, d0 == self.part(st, 'back'), 'offset', 'a part of the file is not read to the end of the buffer')
            st = r[0][0]
            st.facts = {**st.facts, mk_le(sub(n, room)): True, mk_le(scale(n, -1)): True, mk_le(sub(add(plain(a[2]), n), C(PTRMAX))): True}
            o = plain(a[2])
            self.put(st, at=add(o, n), got=n, last=n, sum=(('app', 'wrap', ('s', '+'), o, n), ('app', 'wrap', ('s', '+'), n, o)))
        return r

    def done(self, eng, st, ins, v):
        self.outs.add('ok')


class Files(Compact):
    """the files of a compaction"""

    def suspended(self, st):
        pass

    def fd(self, what):
        return ('app', 'fd', ('app', 'path', ('s', what), ('init', (self.ctx, self.cx.dst), 0)))

    def on_await(self, eng, st, ins, v):
        if v[0] == 'task':
            q = qn(eng.prog.functions[v[2]]['q'])
            a = [plain(models.strip(x)) for x in v[4]]
            if q in (B + 'compactor::compact_one_file', B + 'compactor::detail::commit_batch'):
                self.need(eng, st, ins, a[-2:] == [self.fd('data'), self.fd('hint')], 'order', 'copies and hints are written to the wrong file')
                r = self.fork(eng, st, ins, ('unk', 'void', 0), base_name(q))
                if 'compact_one' in q:
                    self.put(r[0][0], one=True)
                return r
        return super().on_await(eng, st, ins, v)

    def leaf(self, eng, st, ins, b, a):
        ok = ('unk', 'void', 0)
        if b == 'async_openat':
            ok = ('app', 'fd', self.val(eng, st, a[0]))
        self.need(eng, st, ins, b != 'async_unlink_at', 'source', 'a file is removed here')
        return self.fork(eng, st, ins, ok, b)

    def done(self, eng, st, ins, v):
        self.outs.add('ok')
        self.need(eng, st, ins, not self.get(st, 'err'), 'error', 'a compaction that failed is reported to be done')
        if self.get(st, 'one'):
            self.outs.add('one')


def unwrap(t):
    """sums and differences that may wrap are exact in the arithmetic of the machine"""
    if t[:2] == ('app', 'wrap') and t[2] in (('s', '+'), ('s', '-')):
        return (add if t[2][1] == '+' else sub)(unwrap(t[3]), unwrap(t[4]))
    if t[0] == 'lin':
        r = C(t[1])
        for x, k in t[2]:
            r = add(r, scale(unwrap(x), k))
        return r
    return t


class Recover(Stream):
    """what a file says about a key when the store is opened"""
    label = 'recovery'
    watch = ('live', 'location', 'tombstone', 'error', 'offset', 'source', 'fallback')

    def __init__(self, prog, f):
        Ops.__init__(self, Shape(prog))
        self.buf = next((('p', p['n']) for p in f['params'] if p['t'].endswith('BytesMut &')), None)
        self.ids = [('p', p['n']) for p in f['params'] if p['t'].replace('const ', '') in ('uint64_t', 'std::uint64_t', 'unsigned long')]
        self.n = 0

    @property
    def dirloc(self):
        return ('&', ROOT, self.sh.keydir)

    def bounds(self):
        return {}

    def find(self, eng, st):
        return Ops.find(self, eng, st)

    def take(self, eng, st, ins, what, file_id, want):
        """an entry's key is looked up"""

    def on_call(self, eng, st, ins, fn, obj, args):
        b, q = base_name(fn['q']), qn(fn['q'])
        if obj == self.dirloc and b in ('operator[]', 'insert_or_assign', 'try_emplace', 'erase'):
            a = [models.val(eng, st, fn, args, i) for i in range(len(args))]
            k = self.val(eng, st, args[0])
            self.need(eng, st, ins, mentions(k, self.entry(st)) or mentions(args[0], self.entry(st)) or self.stored(eng, st, args[0]), 'live', 'another key is set than that of the entry')
            if b == 'erase':
                self.need(eng, st, ins, self.get(st, 'tomb') is not False, 'tombstone', 'a key is forgotten although its entry holds a value')
                self.put(st, seen='erased')
                return [(st, eng.sym(st, 'erased', ins))]
            for l in [l for l in st.mem if l[0] == ('*', self.node(st))]:
                del st.mem[l]
            self.need(eng, st, ins, self.get(st, 'tomb') is not True, 'tombstone', 'a deleted key comes back')
            self.put(st, seen='set')
            if b == 'operator[]':
                return [(st, ('&', ('*', self.node(st)), 'second'))]
            src = args[1]
            for f in [x['n'] for x in eng.prog.classes[B + 'ValueLocation']['fields']]:
                eng.store(st, (('*', self.node(st)), 'second', f), eng.load(st, src[1:] + (f,)) if src[0] == '&' else eng.project(src, f))
            return [(st, eng.sym(st, 'inserted', ins))]
        return super().on_call(eng, st, ins, fn, obj, args)

    def on_store(self, eng, st, ins, loc, v):
        return None

    def on_load(self, eng, st, ins, loc, v):
        return None

    def entry(self, st):
        return self.get(st, 'ent', ('app', 'no entry'))

    def stored(self, eng, st, x):
        return False

    def place(self, eng, st):
        g = lambda f: plain(models.strip(eng.load(st, (('*', self.node(st)), 'second', f), 'unsigned long')))
        return [g(f) for f in ('file_id', 'offset', 'total_size', 'timestamp_ns')]

    def settle(self, eng, st, ins):
        """the last entry that was read has had its effect"""
        w = self.get(st, 'want')
        if w is None:
            return
        seen = self.get(st, 'seen')
        self.n += 1
        if self.get(st, 'tomb'):
            self.need(eng, st, ins, seen == 'erased', 'tombstone', 'a deleted key is not forgotten')
        else:
            self.need(eng, st, ins, seen == 'set', 'live', 'the key of an entry is not set')
            p = self.place(eng, st)
            same = lambda x, y: x == y or eng.numok(x) and eng.numok(y) and eq(eng, st, unwrap(x), unwrap(y))
            self.need(eng, st, ins, seen != 'set' or all(same(x, y) for x, y in zip(p, w)), 'location', 'a key is not led to the place, length and time of its entry')
        self.put(st, want=None, seen=None, tomb=None)


class Data(Recover):
    """every entry of a buffer has its effect"""

    def gone(self, st):
        return ('app', 'gone', C(self.get(st, 'turn', 0)))

    def on_call(self, eng, st, ins, fn, obj, args):
        b, q = base_name(fn['q']), qn(fn['q'])
        if obj is not None and obj == self.buf:
            l, g = self.left(st), self.gone(st)
            eng.unsigned.update((l, g))
            # what is in the buffer was read before the place the file is read at next
            st.facts = {**st.facts, mk_le(sub(add(l, g), self.ids[1])): True, mk_le(scale(l, -1)): True, mk_le(scale(g, -1)): True}
            if b == 'consumed':
                return [(st, g)]
            if b == 'advance':
                a = plain(models.strip(models.val(eng, st, fn, args, 0)))
                self.need(eng, st, ins, self.get(st, 'size') is not None and a == self.get(st, 'size'), 'offset', 'another part of the buffer is passed over than the entry that was read')
                self.put(st, size=None)
                self.turn(st)
                return [(st, ('unk', 'void', 0))]
        if q == B + 'DataEntry::deserialize':
            self.settle(eng, st, ins)
            self.need(eng, st, ins, self.get(st, 'size') is None, 'live', 'an entry is not passed over')
            x = args[0] if args[0][0] != '&' else eng.load(st, args[0][1:])
            d, n = self.span(eng, x)
            self.need(eng, st, ins, d == self.part(st, 'front') and n == self.left(st), 'offset', 'another part of the buffer is read than what is left of it')
            out = []
            for what, val in (('more', MORE), ('damaged', 2005)):
                s = st.copy()
                self.put(s, ended=what, err=(('app', what),))
                out.append((s, ('err', ('rec', ('app', what), ((('category',), C(6)), (('value',), C(val)))))))
            size = ('app', 'size', C(self.get(st, 'turn', 0)))
            eng.unsigned.add(size)
            e = ('app', 'entry', C(self.get(st, 'turn', 0)))
            self.put(st, ent=e)
            st.facts = {**st.facts, mk_le(sub(size, C(2 ** 32 - 1))): True}
            self.put(st, size=size, want=(self.ids[0], sub(self.ids[1], self.left(st)), size, ('fld', e, 'timestamp_ns')), seen=None)
            t = st.copy()
            self.put(st, tomb=False)
            self.put(t, tomb=True)
            v = lambda: ('ok', ('rec', ('app', 'pair'), ((('first',), e), (('second',), size))))
            return [(st, v()), (t, v())] + out
        if q == B + 'DataEntry::is_tombstone':
            return [(st, ONE if self.get(st, 'tomb') else ZERO)]
        return super().on_call(eng, st, ins, fn, obj, args)

    def on_exit(self, eng, st, ins, how, val):
        if how != 'ret' or st.frames[1:]:
            return
        self.settle(eng, st, ins)
        if val is not None and val[0] == 'err':
            self.outs.add('err')
        else:
            self.outs.add('ok')
            self.need(eng, st, ins, self.get(st, 'ended') is None, 'error', 'the entries that follow are passed over and nobody is told')
        self.need(eng, st, ins, self.get(st, 'size') is None, 'live', 'an entry is not passed over')


class Scan(Recover):
    """a data file is read from its beginning to its end, or to the first damage"""
    numeric = True
    SIZE = ('app', 'file size')

    def on_branch(self, eng, st, ins, p, taken):
        if p[0] in ('le', 'eq') and mentions(p, self.SIZE):
            k = dict(p[1][2]).get(self.SIZE, 0) if p[1][0] == 'lin' else 1
            self.put(st, end=bool(taken and (p[0] == 'eq' or k > 0) or not taken and p[0] == 'le' and k < 0))

    def on_call(self, eng, st, ins, fn, obj, args):
        b, q = base_name(fn['q']), qn(fn['q'])
        if fn.get('cls') == 'kio::BytesMut' or q.startswith('kio::BytesMut::'):
            if b == 'BytesMut':
                self.put(st, clean=True)
                return None
            if b.startswith('~') or b.startswith('operator'):
                return None
            self.buf = obj
        if q == B + 'get_file_size':
            s = st.copy()
            eng.unsigned.add(self.SIZE)
            return [(st, ('ok', self.SIZE)), (s, self.failing(s, (('s', b), C(st.top.ctx), C(ins.idx))))]
        if q == B + 'Partition::recover_data_from_buffer':
            a = [plain(models.strip(models.val(eng, st, fn, args, i))) for i in range(len(args))]
            at = self.get(st, 'at')
            self.n += 1
            self.need(eng, st, ins, a[1] == self.ids[0], 'source', 'the entries of a file are taken for those of another one')
            self.need(eng, st, ins, at is not None and eng.numok(a[2]) and eq(eng, st, unwrap(a[2]), unwrap(at)), 'offset', 'the entries of a file are looked for at another place of it than they were read from')
            self.need(eng, st, ins, self.get(st, 'got') is None, 'offset', 'what was read is not looked at')
            self.put(st, at=None, sum=None)
            out = []
            for what, val in (('more', MORE), ('damaged', 2005)):
                s = st.copy()
                if what == 'damaged':
                    self.put(s, damaged=True)
                out.append((s, ('err', ('rec', ('app', what), ((('category',), C(6)), (('value',), C(val)))))))
            n = lambda x: eng.sym(st, x, ins, 'unsigned long')
            return [(st, ('ok', ('rec', ('app', 'counts'), ((('first',), n('kept')), (('second',), n('gone'))))))] + out
        return super().on_call(eng, st, ins, fn, obj, args)

    def leaf(self, eng, st, ins, b, a):
        if b != 'async_read_at':
            return self.fork(eng, st, ins, ('unk', 'void', 0), b)
        r = self.fork(eng, st, ins, eng.sym(st, b, ins, 'unsigned long'), b)
        n = r[0][1][1]
        d0, room = self.span(eng, a[1])
        self.need(eng, st, ins, d0 == self.part(st, 'back'), 'offset', 'a part of the file is not read to the end of the buffer')
        self.need(eng, st, ins, not self.get(st, 'damaged'), 'offset', 'the file is read on behind a damaged entry: what follows is taken for entries')
        st = r[0][0]
        o = plain(a[2])
        st.facts = {**st.facts, mk_le(sub(n, room)): True, mk_le(scale(n, -1)): True, mk_le(sub(add(o, n), C(PTRMAX))): True}
        self.put(st, at=add(o, n), got=n, last=n)
        return r

    def done(self, eng, st, ins, v):
        self.outs.add('ok')
        last = self.get(st, 'last')
        end = self.get(st, 'damaged') or self.get(st, 'end') or last is not None and eng.truth(st, mk_eq(last)) is True
        self.need(eng, st, ins, end, 'live', 'the file is not read to its end')
        self.need(eng, st, ins, not self.get(st, 'err'), 'error', 'a failed read is taken for the end of the file')


class Hint(Recover):
    """every entry of a hint file has its effect"""
    numeric = True
    TEXT = ('app', 'text')

    def on_await(self, eng, st, ins, v):
        if v[0] == 'task' and qn(eng.prog.functions[v[2]]['q']) == B + 'read_file_content':
            return self.read(eng, st, ins)
        if v == ('app', 'reading'):
            return self.read(eng, st, ins)
        return super().on_await(eng, st, ins, v)

    def read(self, eng, st, ins):
        eng.unsigned.add(('app', 'bytes'))
        return self.fork(eng, st, ins, ('rec', self.TEXT, ((('#data',), ('fld', self.TEXT, '#data')), (('#size',), ('app', 'bytes')))), 'read')

    def settle(self, eng, st, ins):
        if self.get(st, 'want') is not None:
            self.need(eng, st, ins, self.get(st, 'passed'), 'offset', 'the next hint is read from another place than behind the last one')
            self.put(st, passed=None)
        super().settle(eng, st, ins)

    def on_call(self, eng, st, ins, fn, obj, args):
        b, q = base_name(fn['q']), qn(fn['q'])
        if q == 'struct_pack::deserialize':
            self.settle(eng, st, ins)
            x = args[0] if args[0][0] != '&' else eng.load(st, args[0][1:])
            d, n = self.span(eng, x)
            self.need(eng, st, ins, self.get(st, 'ent') is not None or mentions(d, self.TEXT) or any(t[0] == 'phi' for t in subterms(d)), 'offset', 'hints are read from another place than the file')
            s = st.copy()
            e = ('app', 'entry', C(0))
            st.facts = {k: v for k, v in st.facts.items() if not mentions(k, e) and not mentions(k, ('app', 'size'))}
            f = lambda n: ('fld', e, n)
            for n in ('entry_pos', 'total_sz', 'timestamp_ns'):
                eng.unsigned.add(f(n))
            eng.unsigned.add(('app', 'size'))
            self.put(st, ent=e, want=(self.ids[0], f('entry_pos'), f('total_sz'), f('timestamp_ns')), seen=None, tomb=False)
            self.put(s, bad=True)
            return [(st, ('ok', e)), (s, ('err', ('app', 'pack error')))]
        if q == B + 'read_file_content':
            return [(st, ('app', 'reading'))]
        if b == 'subspan' and self.get(st, 'want') is not None and len(args) >= 1:
            n = models.val(eng, st, fn, args, 0)
            self.need(eng, st, ins, self.get(st, 'size') is not None and mentions(plain(models.strip(n)), self.get(st, 'size')) and plain(models.strip(n))[0] != 'lin' and not self.get(st, 'passed'), 'offset', 'the next hint is read from another place than behind the last one')
            self.put(st, passed=True)
            return None
        if q == 'struct_pack::get_needed_size':
            n = eng.sym(st, 'needed', ins, 'unsigned long')
            eng.unsigned.add(n)
            self.put(st, size=n)
            return [(st, n)]
        return super().on_call(eng, st, ins, fn, obj, args)

    def own(self, st, e):
        return self.get(st, 'bad') is True

    def done(self, eng, st, ins, v):
        self.outs.add('ok')
        self.settle(eng, st, ins)
        self.need(eng, st, ins, not self.get(st, 'err') and not self.get(st, 'bad'), 'error', 'a hint file that could not be read is taken for whole: its data file is not looked at')


class Whole(Recover):
    """a file whose hints cannot be read is read itself"""

    def on_await(self, eng, st, ins, v):
        if v[0] == 'task':
            q = qn(eng.prog.functions[v[2]]['q'])
            a = [plain(models.strip(x)) for x in v[4]]
            if q == B + 'Partition::recover_from_hint_file':
                self.n += 1
                r = self.fork(eng, st, ins, ('unk', 'void', 0), 'hint')
                self.put(r[0][0], hinted=True)
                return r
            if q == B + 'Partition::try_recover_from_hint':
                self.n += 1
                s = st.copy()
                self.put(st, known=a[0], waiting=None)
                self.need(eng, s, ins, self.get(s, 'waiting') is None, 'fallback', 'a file whose hints could not be read is not read itself')
                self.put(s, waiting=a[0])
                return [(st, ONE), (s, ZERO)]
            if q == B + 'Partition::recover_from_data_file':
                self.n += 1
                self.need(eng, st, ins, self.get(st, 'waiting') in (None, a[1]), 'fallback', 'another file is read than the one whose hints could not be')
                self.put(st, waiting=None)
                r = self.fork(eng, st, ins, ('unk', 'void', 0), 'data')
                self.put(r[1][0], err=())
                return r
            if q == B + 'Partition::create_and_set_active_file':
                r = self.fork(eng, st, ins, ('unk', 'void', 0), 'active')
                self.put(r[0][0], active=True)
                return r
        return super().on_await(eng, st, ins, v)

    def leaf(self, eng, st, ins, b, a):
        p = self.val(eng, st, a[0]) if b == 'async_openat' else None
        w = self.get(st, 'waiting')
        if p is not None and w is not None:
            self.need(eng, st, ins, p == ('app', 'path', ('s', 'data'), w), 'fallback', 'another file is opened than the one whose hints could not be read')
        return self.fork(eng, st, ins, ('app', 'fd', ('s', 'open')), b)

    def done(self, eng, st, ins, v):
        self.outs.add('ok')
        self.need(eng, st, ins, self.get(st, 'waiting') is None, 'fallback', 'a file whose hints could not be read is not read itself')
        self.need(eng, st, ins, self.get(st, 'active'), 'fallback', 'the store is opened without an active file')


class TryHint(Whole):
    def on_exit(self, eng, st, ins, how, val):
        if how != 'coret' or val is None:
            return
        no = eng.truth(st, as_pred(val)) is False if val[0] != 'c' else val == ZERO
        self.outs.add('no' if no else 'yes')
        self.need(eng, st, ins, no or self.get(st, 'hinted'), 'fallback', 'hints that were not read are reported to be')


def check_recovery(chk):
    P = B + 'Partition::'
    for q, cls, outs in ((P + 'recover_data_from_buffer', Data, ('ok', 'err')), (P + 'recover_from_data_file', Scan, ('ok', 'err')), (P + 'recover_from_hint_file', Hint, ('ok', 'err')), (P + 'try_recover_from_hint', TryHint, ('yes', 'no')), (P + 'recover', Whole, ('ok', 'err'))):
        f = one(chk, q)
        r = cls(chk.prog, f)
        chk.run(r, f, this=('p', 'this'))
        for o in outs:
            chk.require(r.label, q + '|outcome ' + o, f['file'], f['line'], o in r.outs, 'there is no such outcome: ' + o)
        chk.require(r.label, q + '|entries', f['file'], f['line'], r.n > 0, 'no entry has an effect')


def check_compaction(chk):
    K = B + 'compactor::'
    for q, cls, outs in ((K + 'detail::commit_batch', Commit, ('ok', 'err')), (K + 'detail::process_parsed_entry', Parsed, ('kept', 'dropped')), (K + 'detail::parse_entries_from_buffer', Entries, ('ok', 'err')), (K + 'compact_one_file', One, ('ok', 'err')), (K + 'compact_files', Files, ('ok', 'err', 'one'))):
        f = one(chk, q)
        r = cls(chk.prog, f)
        chk.run(r, f, facts=r.bounds())
        for o in outs:
            chk.require(r.label, q + '|outcome ' + o, f['file'], f['line'], o in r.outs, 'there is no such outcome: ' + o)
        if cls is One:
            chk.require(r.label, q + '|removes', f['file'], f['line'], r.removed > 0 and r.parsed > 0, 'the source is never read or never removed')
        if cls is Commit:
            chk.require(r.label, q + '|leads', f['file'], f['line'], r.did > 0, 'keys are never led to the copies')
