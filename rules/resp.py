"""RESP parser: memory bounds (C03), limits (C04), frame extents and verdicts (C05), child iteration (C06)."""
from .common import *

P = 'kio::resp::Parser'
IT = 'kio::resp::FrameIterator'
SIMPLE = ('SimpleString', 'SimpleError', 'Integer', 'Null', 'Boolean', 'Double', 'BigNumber')
BULK = ('BulkString', 'BulkError', 'VerbatimString')
AGG = {'Array': 1, 'Set': 1, 'Push': 1, 'Map': 2, 'Attribute': 2}
GP, GN = ('v', 0, '#next'), ('v', 0, '#children')     # ghosts: where the next child starts, children parsed
GS, GF = ('v', 0, '#scan'), ('v', 0, '#found')


def enumvals(prog, q):
    e = prog.enum(q)
    return {x['n']: int(x['v']) for x in e['c']}


def byte(st, addr):
    return ('init', (('*', addr),), st.epoch)


class Resp(Num):
    label = 'resp'
    max_states = 80
    max_head = 12
    heap_volatile = False

    def __init__(self, prog, core, mode, checks):
        self.prog, self.core, self.mode, self.checks = prog, core, mode, checks
        self.types = enumvals(prog, 'kio::resp::FrameType')
        self.errs = enumvals(prog, 'kio::resp::ParseError')
        self.okseen = {}
        cfg = [f['n'] for f in prog.cls(P)['fields'] if 'ParserConfig' in f['t']]
        if len(cfg) != 1:
            raise CheckError('resp: cannot identify the configuration of the parser')
        self.cfg = cfg[0]
        self.regions = []     # (data, size) pairs reads are allowed in
        self.span = None

    def inline(self, eng, st, fn):
        return 'BytesMut' not in fn.qn or self.mode == 'none'

    # -- facts about bytes
    def bytes_known(self, st):
        out = {}
        for p, b in st.facts.items():
            if p[0] != 'eq':
                continue
            k, it = lin_parts(p[1])
            if len(it) == 1 and it[0][0][0] == 'init' and it[0][0][1][0][0] == '*' and len(it[0][0][1]) == 1 and abs(it[0][1]) == 1:
                out.setdefault(it[0][0][1][0][1], []).append((-k * it[0][1], b))
        return out

    def byte_is(self, eng, st, addr, c):
        for a, vs in self.bytes_known(st).items():
            if (c, True) in vs and eq(eng, st, a, addr):
                return True
        return False

    def on_bin(self, eng, st, ins, op, a, b):
        if op == '-' and is_unsigned(ins.x.get('t')) and eng.numok(a) and b == ONE and not eng.entails_le(st, sub(ONE, a)):
            bk = self.bytes_known(st)
            for x, vs in bk.items():
                base = sub(x, a)
                for y, ws in bk.items():
                    if y == base and any(t and any((t2 and c2 != c) or (not t2 and c2 == c) for c2, t2 in ws) for c, t in vs):
                        p = mk_le(sub(ONE, a))
                        if p[0] == 'le':
                            st.facts = {**st.facts, p: True}
        return Num.on_bin(self, eng, st, ins, op, a, b)

    # -- memory
    def region(self, eng, st, ptr, n):
        ptr = eng.ptr(ptr)
        if n is not None and le(eng, st, n, ZERO):
            return True
        for d, sz in self.regions:
            off = sub(ptr, d)
            if ge0(eng, st, off) and le(eng, st, add(off, n), sz):
                return True
        return False

    def inside(self, eng, st, ins, ptr, n, what):
        if 'mem' not in self.checks:
            return
        self.need(eng, st, ins, self.region(eng, st, ptr, n), what, '%s may reach outside the input' % what)

    def on_idx(self, eng, st, ins, b, i, fn=None):
        if fn is not None:
            v = eng.load(st, eng.loc_of(b))
            s = models.strip(v)
            if fn['q'].startswith(('std::span', 'std::basic_string_view')):
                d, n = eng.project(v, '#data'), models.size_val(eng, v)
                if 'mem' in self.checks:
                    self.need(eng, st, ins, lt(eng, st, i, n) or self.region(eng, st, add(eng.ptr(d), i), ONE), 'element access',
                              'element access is not provably below the size of the view')
            return
        self.inside(eng, st, ins, add(eng.ptr(b), i), ONE, 'byte access')

    def on_subspan(self, eng, st, ins, fn, obj, n, off, cnt):
        if 'mem' in self.checks:
            self.need(eng, st, ins, le(eng, st, off, n) and le(eng, st, add(off, cnt), n), 'subspan', 'subspan is not provably inside its source')

    def ghost(self, st, g):
        return st.mem.get((g,))

    def on_call(self, eng, st, ins, fn, obj, args):
        q = qn(fn['q'])
        b = base_name(fn['q'])
        if fn.get('id') == self.core:
            return self.summary(eng, st, ins, fn, obj, args)
        if q == 'kio::BytesMut::readable_span':
            return [(st, self.span)]
        if b in ('memchr', '__builtin_memchr'):
            p, c, n = [eng.ptr(models.val(eng, st, fn, args, i)) for i in range(3)]
            self.inside(eng, st, ins, p, n, 'memchr range')
            if c == C(10) and 'extent' in self.checks:
                g = self.ghost(st, GS)
                base = None
                for d, sz in self.regions:
                    if ge0(eng, st, sub(p, d)):
                        base = (d, sz)
                if base:
                    start = g if g is not None else None
                    ok = eq(eng, st, p, base[0]) or eq(eng, st, p, add(base[0], ONE)) or (g is not None and eq(eng, st, p, g))
                    self.need(eng, st, ins, ok, 'line end search start', 'the search for the line end skips input bytes')
                    self.need(eng, st, ins, eq(eng, st, add(p, n), add(base[0], base[1])), 'line end search range',
                              'the search for the line end does not extend to the end of the input')
            r = eng.sym(st, 'memchr', ins)
            eng.unsigned.add(r)
            s0 = st.copy()
            eng.store(s0, (GF,), ('nolf',))
            out = [(s0, ZERO)]
            s1 = st.copy()
            s1.facts = dict(s1.facts)
            for x in (mk_le(sub(p, r)), mk_le(sub(add(r, ONE), add(p, n)))):
                if x[0] == 'le':
                    s1.facts[x] = True
            if c[0] == 'c':
                s1.facts[mk_eq(sub(byte(s1, r), c))] = True
            eng.store(s1, (GS,), add(r, ONE))
            eng.store(s1, (GF,), add(r, ONE))
            if self.mode == 'core' and self.ghost(st, GN) == ZERO:
                eng.store(s1, (GP,), add(r, ONE))
            s1.auto = tuple(x for x in s1.auto if x[0] != 'line') + (('line', r),)
            out.append((s1, r))
            return out
        if q == 'std::from_chars':
            f, l = eng.ptr(models.val(eng, st, fn, args, 0)), eng.ptr(models.val(eng, st, fn, args, 1))
            self.inside(eng, st, ins, f, sub(l, f), 'from_chars range')
            v, p, e = eng.sym(st, 'parsed', ins), eng.sym(st, 'fcptr', ins), eng.sym(st, 'fcec', ins)
            s1 = st.copy()
            eng.store(s1, eng.loc_of(args[2]), v)
            s1.facts = dict(s1.facts)
            for x in (mk_le(sub(add(f, ONE), p)), mk_le(sub(p, l))):
                if x[0] == 'le':
                    s1.facts[x] = True
            s1.auto = s1.auto + (('parsed', v, f, l, p),)
            if (fn.get('pt') or ['', '', ''])[2].startswith(('long', 'int', 'short')):
                for x in (mk_le(sub(v, C(2 ** 63 - 1))), mk_le(sub(C(-2 ** 63), v))):
                    s1.facts[x] = True
            s2 = st.copy()
            s2.facts = {**s2.facts, mk_eq(e): False}
            return [(s1, ('rec', ('app', 'fc'), ((('ec',), ZERO), (('ptr',), p)))),
                    (s2, ('rec', ('app', 'fc'), ((('ec',), e), (('ptr',), p))))]
        if q in ('std::operator==', 'std::operator!=') and len(args) == 2:
            x, y = models.val(eng, st, fn, args, 0), models.val(eng, st, fn, args, 1)
            if x[0] == 's':
                x, y = y, x
            no = st.copy()
            st.auto = st.auto + (('streq', x, y),)
            t = C(0 if q.endswith('!=') else 1)
            return [(st, t), (no, neg(t))]
        if q in ('std::basic_string_view::find', 'std::basic_string_view::find_first_of'):
            v = eng.load(st, eng.loc_of(obj))
            n = models.size_val(eng, v)
            needle = models.val(eng, st, fn, args, 0)
            ln = len(needle[1]) if needle[0] == 's' else 1
            s0, s1 = st.copy(), st.copy()
            eng.store(s0, (GF,), ('nolf',))
            r = eng.sym(st, 'found', ins)
            eng.unsigned.add(r)
            x = mk_le(sub(add(r, C(ln)), n))
            s1.facts = {**s1.facts}
            if x[0] == 'le':
                s1.facts[x] = True
            if needle[0] == 's':
                d = eng.ptr(eng.project(v, '#data'))
                for i, ch in enumerate(needle[1]):
                    s1.facts[mk_eq(sub(byte(s1, add(d, add(r, C(i)))), C(ord(ch))))] = True
            return [(s0, C(U64)), (s1, r)]
        return None

    # -- the recursive step
    def summary(self, eng, st, ins, fn, obj, args):
        sp = self.pick_span(eng, st, fn, args)
        d, n = eng.ptr(eng.project(sp, '#data')), models.size_val(eng, sp)
        dep = self.pick_depth(eng, st, fn, args)
        g, k = self.ghost(st, GP), self.ghost(st, GN)
        if self.mode == 'core':
            self.inside(eng, st, ins, d, n, 'child input')
            if 'limit' in self.checks:
                self.need(eng, st, ins, dep is not None and eq(eng, st, dep, add(self.depth, ONE)), 'depth counts up',
                          'the nested parse does not get the depth plus one')
                self.need(eng, st, ins, le(eng, st, self.depth, self.maxdepth(eng, st)), 'depth limit before recursion',
                          'a nested parse starts although the nesting limit is exceeded')
            if 'extent' in self.checks:
                okstart = g is not None and eq(eng, st, d, g)
                self.need(eng, st, ins, okstart, 'child position', 'a child is not parsed where the header or the previous child ended')
                self.need(eng, st, ins, eq(eng, st, add(d, n), add(self.base, self.size)), 'child range', 'a child is not given the rest of the input')
        else:
            self.iter_call(eng, st, ins, d, dep)
        z = eng.sym(st, 'childsize', ins)
        h = eng.sym(st, 'child', ins)
        er = eng.sym(st, 'childerr', ins)
        eng.unsigned.add(z)
        s1, s2 = st.copy(), st.copy()
        s1.facts = dict(s1.facts)
        for x in (mk_le(sub(C(3), z)), mk_le(sub(z, n))):
            if x[0] == 'le':
                s1.facts[x] = True
        hv = ('rec', h, ((('data',), d), (('size',), z)))
        if self.mode == 'core':
            eng.store(s1, (GP,), add(d, z))
            eng.store(s1, (GN,), add(k if k is not None else ZERO, ONE))
        else:
            eng.store(s1, (GP,), z)
            eng.store(s1, (GN,), h)
            eng.store(s2, (GP,), ('failed',))
        return [(s1, ('ok', hv)), (s2, ('err', er))]

    def pick_span(self, eng, st, fn, args):
        for i, t in enumerate(fn.get('pt') or []):
            if 'std::span<const char' in t or 'basic_string_view' in t or 'std::string_view' in t:
                return models.val(eng, st, fn, args, i)
        raise CheckError('resp: the nested parse has no view parameter')

    def pick_depth(self, eng, st, fn, args):
        for i, t in enumerate(fn.get('pt') or []):
            if is_unsigned(t.replace('const ', '').rstrip('&').strip()):
                return models.val(eng, st, fn, args, i)
        return None

    def maxdepth(self, eng, st):
        return ('init', (('*', ('p', 'this')), self.cfg, 'max_aggregate_depth'), 0)

    def maxsize(self, eng, st):
        return ('init', (('*', ('p', 'this')), self.cfg, 'max_size'), 0)

    def line_ends(self, eng, st):
        """offsets of the CRLFs found in the input on this path"""
        bk = self.bytes_known(st)
        out = []
        for a, vs in bk.items():
            if (13, True) in vs:
                for b, ws in bk.items():
                    if (10, True) in ws and eq(eng, st, b, add(a, ONE)):
                        out.append(sub(a, self.base))
                        break
        return out

    def line_end(self, eng, st):
        """the same, preferring the one at which a number read from the line ends"""
        ends = self.line_ends(eng, st)
        for p in ends:
            if any(eq(eng, st, x[2], add(self.base, p)) for x in self.parsed(eng, st)):
                return p
        return ends[0] if ends else None

    def parsed(self, eng, st):
        """(value, first, last, end) of numbers read on this path"""
        return [x[1:] for x in st.auto if x[0] == 'parsed']

    def on_enter(self, eng, st, fn):
        if len(st.frames) == 1:
            eng.store(st, (GS,), self.base)

    def on_return(self, eng, st, ins, frame, val):
        f = frame.fn.f
        s = f.get('_searches')
        if s is None:
            s = f['_searches'] = any(qn(ref['q']) in ('memchr', 'std::memchr', '__builtin_memchr') for ref, l, n in ir.calls_of(f))
        if s:
            eng.store(st, (GS,), self.base)

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        if self.mode == 'core':
            self.exit_core(eng, st, ins, val)
        else:
            self.post(eng, st, ins, val)

    def exit_core(self, eng, st, ins, val):
        v = models.strip(val)
        if v[0] == 'ok':
            self.exit_ok(eng, st, ins, v[1])
        elif v[0] == 'err':
            self.exit_err(eng, st, ins, v[1])
        else:
            raise CheckError('resp: unresolved parse result')

    def exit_ok(self, eng, st, ins, h):
        ld = lambda f: eng.project(h, f)
        data, size, typ, cnt = eng.ptr(ld('data')), ld('size'), ld('type'), ld('element_count')
        kind = None
        b0 = byte(st, self.base)
        for n, v in self.types.items():
            if eng.truth(st, mk_eq(sub(b0, C(v)))) is True:
                kind = n
        if 'mem' in self.checks:
            self.need(eng, st, ins, eq(eng, st, data, self.base) and le(eng, st, size, self.size) and ge0(eng, st, size), 'frame inside input',
                      'a frame is returned that is not inside the input')
        if 'limit' in self.checks:
            self.need(eng, st, ins, le(eng, st, self.depth, self.maxdepth(eng, st)), 'depth limit', 'a frame nested too deeply is accepted')
        if kind is None:
            if 'extent' in self.checks:
                self.need(eng, st, ins, False, 'known type', 'a frame is returned for a first byte that is no frame type')
            return
        self.okseen.setdefault(kind, 0)
        self.okseen[kind] += 1
        pos = self.line_end(eng, st)
        if 'extent' in self.checks:
            self.need(eng, st, ins, eq(eng, st, typ, b0), kind + ' type', 'the type of the frame is not its first byte')
            if not self.need(eng, st, ins, pos is not None, kind + ' line end', 'a frame is returned without a CRLF having been seen'):
                return
        if pos is None:
            return
        hdr = add(pos, C(2))
        pl = [x for x in self.parsed(eng, st) if eq(eng, st, x[1], add(self.base, ONE)) and eq(eng, st, x[2], add(self.base, pos))
              and eq(eng, st, x[3], x[2])]
        if kind in SIMPLE:
            if 'extent' in self.checks:
                self.need(eng, st, ins, eq(eng, st, size, hdr), kind + ' size', 'the size of a line frame is not its line including CRLF')
                text = ('span', add(self.base, ONE), sub(pos, ONE))
                if kind == 'Integer':
                    self.need(eng, st, ins, bool(pl), kind + ' payload', 'an integer frame is accepted without its whole payload being a number')
                if kind == 'Boolean':
                    ok = any(self.streq(eng, st, text, x) for x in 'tf')
                    self.need(eng, st, ins, ok, kind + ' payload', 'a boolean frame is accepted that is neither t nor f')
                if kind == 'Double':
                    ok = bool(pl) or any(self.streq(eng, st, text, x) for x in ('inf', '+inf', '-inf', 'nan'))
                    self.need(eng, st, ins, ok, kind + ' payload', 'a double frame is accepted without its whole payload being a number')
            return
        if not pl:
            if 'extent' in self.checks or 'limit' in self.checks:
                self.need(eng, st, ins, False, kind + ' length', 'a frame is accepted without its whole length field being a number')
            return
        n = pl[0][0]
        if kind in BULK:
            null = eng.truth(st, mk_eq(add(n, ONE))) is True
            if 'limit' in self.checks:
                self.need(eng, st, ins, null or (ge0(eng, st, n) and le(eng, st, n, self.maxsize(eng, st))), kind + ' length limit',
                          'a bulk frame with a negative or too large length is accepted')
            if 'extent' in self.checks:
                self.need(eng, st, ins, eq(eng, st, size, hdr) if null else eq(eng, st, size, add(hdr, add(n, C(2)))), kind + ' size',
                          'the size of a bulk frame is not header, payload and CRLF')
                if not null:
                    e = add(self.base, add(hdr, n))
                    self.need(eng, st, ins, self.byte_is(eng, st, e, 13) and self.byte_is(eng, st, add(e, ONE), 10), kind + ' terminator',
                              'a bulk payload is accepted without the CRLF behind it')
            return
        mult = AGG.get(kind)
        if mult is None:
            if 'extent' in self.checks:
                self.need(eng, st, ins, False, kind + ' known', 'no rule for this frame type')
            return
        if 'limit' in self.checks:
            self.need(eng, st, ins, ge0(eng, st, n), kind + ' count', 'an aggregate with a negative count is accepted')
        if 'extent' in self.checks:
            self.need(eng, st, ins, eq(eng, st, cnt, n), kind + ' element count', 'the element count is not the number in the header')
            k, g = self.ghost(st, GN), self.ghost(st, GP)
            self.need(eng, st, ins, k is not None and eq(eng, st, k, scale(n, mult)), kind + ' children', 'an aggregate is accepted without all of its children having been parsed')
            ok = (g is not None and eq(eng, st, add(self.base, size), g)) or (k is not None and eq(eng, st, k, ZERO) and eq(eng, st, size, hdr))
            self.need(eng, st, ins, ok, kind + ' size', 'the size of an aggregate does not end behind its last child')

    def streq(self, eng, st, text, s):
        for p in st.auto:
            if p[0] == 'streq' and p[2] == ('s', s):
                x = models.strip(p[1])
                if x[0] == 'span' and eq(eng, st, x[1], text[1]) and eq(eng, st, x[2], text[2]):
                    return True
        return False

    def exit_err(self, eng, st, ins, e):
        if e[0] != 'c':
            return          # handed on from a child
        name = [n for n, v in self.errs.items() if v == e[1]]
        name = name[0] if name else '?'
        if name == 'NeedMoreData' and 'extent' in self.checks:
            pos = self.line_end(eng, st)
            g = self.ghost(st, GF)
            end = add(self.base, self.size)
            ok = le(eng, st, self.size, ONE) or g == ('nolf',) or (g is not None and g[0] != 'nolf' and le(eng, st, end, g) and
                                                                           not any(eq(eng, st, add(self.base, add(p, C(2))), g) for p in self.line_ends(eng, st)))
            if not ok and pos is not None:
                for v, f, l, p in self.parsed(eng, st):
                    if lt(eng, st, self.size, add(add(pos, C(4)), v)):
                        ok = True
            self.need(eng, st, ins, ok, 'incomplete', 'more data is asked for although the frame is complete')
        if name == 'MaxDepthReached' and 'limit' in self.checks:
            self.need(eng, st, ins, lt(eng, st, self.maxdepth(eng, st), self.depth), 'depth refusal', 'nesting within the limit is refused')
        if name == 'SizeOverflow' and 'limit' in self.checks:
            ok = any(lt(eng, st, self.maxsize(eng, st), v) for v, f, l, p in self.parsed(eng, st))
            self.need(eng, st, ins, ok, 'size refusal', 'a length within the limit is refused')
        if name == 'EoIter':
            self.need(eng, st, ins, self.mode != 'core', 'end of iteration', 'the parser reports the end of an iteration')


def core_of(prog):
    """the recursive parse function behind next_frame"""
    f0 = prog.fn(P + '::next_frame')
    graph = {}

    def succ(i):
        if i not in graph:
            f = prog.functions.get(i)
            s = set()
            if f is not None and 'body' in f:
                for ref, l, n in ir.calls_of(f):
                    if ref.get('in'):
                        s.add(ref['id'])
            graph[i] = s
        return graph[i]

    def reach(i):
        seen, todo = set(), list(succ(i))
        while todo:
            x = todo.pop()
            if x in seen:
                continue
            seen.add(x)
            todo += succ(x)
        return seen
    # breadth first: the first function that reaches itself
    seen, todo = {f0['id']}, [f0['id']]
    while todo:
        x = todo.pop(0)
        if x != f0['id'] and x in reach(x):
            return x
        for y in sorted(succ(x)):
            if y not in seen:
                seen.add(y)
                todo.append(y)
    if f0['id'] in reach(f0['id']):
        return f0['id']
    raise CheckError('resp: no recursive parse function behind next_frame')


def run_core(chk, checks):
    prog = chk.prog
    core = core_of(prog)
    f = prog.functions[core]
    r = Resp(prog, core, 'core', checks)
    d, n, dep = ('p', 'data'), ('p', 'size'), ('p', 'depth')
    args = []
    for p in f['params']:
        t = p['t'].replace('const ', '').rstrip('&').strip()
        if 'std::span<' in p['t'] or 'string_view' in p['t']:
            args.append(('span', d, n))
        elif is_unsigned(t):
            args.append(dep)
        else:
            args.append(None)
    r.base, r.size, r.depth = d, n, dep
    r.regions = [(d, n)]

    def setup(eng, st):
        eng.unsigned |= {d, n, dep, r.maxdepth(eng, st), r.maxsize(eng, st)}
        st.facts = {mk_le(sub(n, C(PTRMAX))): True, mk_le(sub(d, C(PTRMAX))): True, mk_le(sub(C(1), d)): True,
                    mk_le(sub(dep, C(2 ** 32))): True}
        eng.store(st, (GN,), ZERO)
    chk.run(r, f, 3000000, this=('p', 'this'), args=args, setup=setup)
    if 'extent' in checks:
        for k in r.types:
            chk.require('resp', 'accepts %s' % k, f['file'], f['line'], r.okseen.get(k), 'no path accepts a frame of type %s' % k)


def run_payload(chk, checks):
    """get_simple_payload / get_bulk_payload on frames the parser can return"""
    prog = chk.prog
    for name in ('get_simple_payload', 'get_bulk_payload'):
        for f in prog.fns('kio::resp::' + name):
            r = Resp(prog, None, 'payload', checks)
            d, n = ('p', 'fdata'), ('p', 'fsize')
            r.regions = [(d, n)]
            r.base, r.size = d, n
            loc = (('v', 0, 'frame'),)

            def post(eng, st, ins, val, r=r, name=name, d=d, n=n):
                v = models.strip(val)
                p, l = eng.ptr(eng.project(val, '#data')), models.size_val(eng, val)
                if eq(eng, st, l, ZERO) and (p == ZERO or p[0] == 'c'):
                    # nothing: the frame has no payload
                    if 'extent' in checks:
                        pos = r.line_end(eng, st)
                        ok = pos is None if name == 'get_simple_payload' else (pos is None or lt(eng, st, n, add(pos, C(4))))
                        r.need(eng, st, ins, ok, name + ' empty', 'an existing payload is reported as empty')
                    return
                if 'mem' in checks:
                    r.need(eng, st, ins, r.region(eng, st, p, l) and ge0(eng, st, l), name + ' inside frame', 'the payload view reaches outside the frame')
                if 'extent' in checks:
                    pos = r.line_end(eng, st)
                    if name == 'get_simple_payload':
                        ok = pos is not None and eq(eng, st, p, add(d, ONE)) and eq(eng, st, add(l, ONE), pos)
                    else:
                        ok = pos is not None and eq(eng, st, p, add(d, add(pos, C(2)))) and eq(eng, st, add(l, add(pos, C(4))), n)
                    r.need(eng, st, ins, ok, name + ' extent', 'the payload view is not exactly the payload of the frame')
            r.post = post

            def setup(eng, st, d=d, n=n):
                eng.unsigned |= {d, n}
                eng.store(st, loc, ('rec', ('app', 'frame'), ((('data',), d), (('size',), n))))
                st.facts = {mk_le(sub(n, C(PTRMAX))): True, mk_le(sub(d, C(PTRMAX))): True, mk_le(sub(C(1), d)): True,
                            mk_eq(sub(byte(st, d), C(13))): False}
            chk.run(r, f, 500000, args=[('&',) + loc], setup=setup)


def run_iter(chk, checks):
    prog = chk.prog
    core = core_of(prog)
    types = enumvals(prog, 'kio::resp::FrameType')
    cls = prog.cls(IT)
    # construction
    ctors = [prog.functions[m['id']] for m in cls['methods'] if m.get('ck') == 'ctor' and not m.get('implicit') and
             'body' in prog.functions.get(m['id'], {})]
    if not ctors:
        raise CheckError('anchor vanished: FrameIterator constructor')
    # identify the fields through the public accessor
    from .bytesmut import Probe
    from sa.engine import Engine
    pr = Probe()
    Engine(prog, pr, 20000).entry(prog.fn(IT + '::remaining'), this=('p', 'this'))
    if len(pr.out) != 1 or pr.out[0][0] != 'init':
        raise CheckError('FrameIterator::remaining is not a plain accessor')
    frem = pr.out[0][1][-1]
    fcur = [f['n'] for f in cls['fields'] if f['t'] == 'const char *']
    if len(fcur) != 1:
        raise CheckError('FrameIterator: cannot identify the position')
    fcur = fcur[0]
    depth0 = {}
    for f in ctors:
        r = Resp(prog, core, 'iter', checks)
        d, n, cnt, ty = ('p', 'fdata'), ('p', 'fsize'), ('p', 'fcount'), ('p', 'ftype')
        r.regions = [(d, n)]
        r.base, r.size = d, n
        loc = (('v', 0, 'frame'),)
        root = ('*', ('p', 'this'))

        def post(eng, st, ins, val, r=r):
            if 'extent' not in checks:
                return
            cur, rem = eng.load(st, (root, fcur)), eng.load(st, (root, frem))
            for x in cls['fields']:
                if is_unsigned(x['t']) and x['n'] != frem:
                    depth0.setdefault(x['n'], set()).add(eng.load(st, (root, x['n'])))
            pos = r.line_end(eng, st)
            if pos is not None:
                r.need(eng, st, ins, eq(eng, st, cur, add(d, add(pos, C(2)))), 'first child', 'iteration does not start behind the header line')
            two = any(eng.truth(st, mk_eq(sub(ty, C(types[k])))) is True for k in ('Map', 'Attribute'))
            one = all(eng.truth(st, mk_eq(sub(ty, C(types[k])))) is False for k in ('Map', 'Attribute'))
            ok = (two and eq(eng, st, rem, scale(cnt, 2))) or (one and eq(eng, st, rem, cnt))
            r.need(eng, st, ins, ok, 'children to visit', 'the number of children to visit is not the element count (twice for maps and attributes)')
        r.post = post

        def setup(eng, st):
            eng.unsigned |= {d, n, cnt}
            eng.store(st, loc, ('rec', ('app', 'frame'), ((('data',), d), (('element_count',), cnt), (('size',), n), (('type',), ty))))
            st.facts = {mk_le(sub(n, C(PTRMAX))): True, mk_le(sub(d, C(PTRMAX))): True, mk_le(sub(C(1), d)): True,
                        mk_le(sub(cnt, C(2 ** 63 - 1))): True}
        args = []
        for p in f['params']:
            args.append(('&',) + loc if 'FrameHeader' in p['t'] else None)
        chk.run(r, f, 500000, this=('p', 'this'), args=args, setup=setup)
    # stepping
    nf = prog.fn(IT + '::next')
    r = Resp(prog, core, 'iter', checks)
    root = ('*', ('p', 'this'))
    ic, irm = ('init', (root, fcur), 0), ('init', (root, frem), 0)
    r.regions = []
    r.base, r.size = ic, ('p', 'rest')
    from sa.engine import modset
    mods = modset(prog, nf['id'])

    def iter_call(eng, st, ins, d, dep):
        if 'extent' in checks:
            r.need(eng, st, ins, eq(eng, st, d, ic), 'child position', 'the next child is not parsed at the current position')
            r.need(eng, st, ins, le(eng, st, ONE, irm), 'child exists', 'a child is parsed although none is left')
        if 'limit' in checks:
            ok = dep is not None and dep[0] == 'c' and dep[1] <= 1
            if dep is not None and dep[0] == 'init' and dep[1][0] == root and dep[1][-1] not in mods:
                ok = True
            r.need(eng, st, ins, ok, 'child depth', 'a child of an accepted frame may be refused for its depth')

    r.iter_call = iter_call

    def post2(eng, st, ins, val):
        if 'extent' not in checks:
            return
        v = models.strip(val)
        cur, rem = eng.load(st, (root, fcur)), eng.load(st, (root, frem))
        g, h = r.ghost(st, GP), r.ghost(st, GN)
        if v[0] == 'ok':
            r.need(eng, st, ins, g is not None and g[0] != 'failed' and models.strip(v[1]) == models.strip(h), 'returned child', 'next() returns something else than the child it parsed')
            r.need(eng, st, ins, g is not None and g[0] != 'failed' and eq(eng, st, cur, add(ic, g)), 'position advances', 'next() does not advance by the size of the child')
            r.need(eng, st, ins, eq(eng, st, rem, sub(irm, ONE)), 'count advances', 'next() does not count the child')
        elif v[0] == 'err':
            r.need(eng, st, ins, eq(eng, st, cur, ic) and eq(eng, st, rem, irm), 'failure keeps position', 'a failing next() moves the iterator')
            if g is None:
                r.need(eng, st, ins, v[1][0] == 'c' and v[1][1] == r.errs['EoIter'] and eq(eng, st, irm, ZERO), 'end of iteration', 'next() ends the iteration early')
        else:
            raise CheckError('resp: unresolved next() result')
    r.post = post2

    def setup2(eng, st):
        eng.unsigned |= {irm, ic}
        st.facts = {mk_le(sub(ic, C(PTRMAX))): True, mk_le(sub(C(1), ic)): True}
    chk.run(r, nf, 200000, this=('p', 'this'), setup=setup2)


def memory(chk):
    run_core(chk, {'mem'})
    run_payload(chk, {'mem'})


def limits(chk):
    run_core(chk, {'limit'})
    run_iter(chk, {'limit'})


def extents(chk):
    run_core(chk, {'extent'})
    run_payload(chk, {'extent'})


def iteration(chk):
    run_iter(chk, {'extent'})
