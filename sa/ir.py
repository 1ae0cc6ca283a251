"""Lowers dumped function bodies to a control-flow graph of simple instructions."""
import re

_tpl = re.compile(r'<[^<>]*>')
OPNAMES = ('operator<=>', 'operator<<', 'operator>>', 'operator<=', 'operator>=', 'operator<', 'operator>',
           'operator->*', 'operator->')


def qn(q):
    """qualified name without template arguments"""
    if '<' not in q and '(' not in q:
        return q
    # protect operator names
    for i, o in enumerate(OPNAMES):
        q = q.replace(o, '\x01%d\x02' % i)
    q = q.replace('->', '\x03')
    prev = None
    while prev != q:
        prev = q
        q = _tpl.sub('', q)
    # local entities print as f(args)::name ; drop parameter lists that precede ::
    while True:
        n = re.sub(r'\([^()]*\)(?=::)', lambda m: m.group(0) if 'anonymous' in m.group(0) else '', q)
        if n == q:
            break
        q = n
    q = q.replace('\x03', '->')
    for i, o in enumerate(OPNAMES):
        q = q.replace('\x01%d\x02' % i, o)
    return q


def base_name(q):
    return qn(q).rsplit('::', 1)[-1]


RAII = set()      # classes of the repository with a destructor of their own (filled when the program is loaded)
_boring = {}


def boring(t):
    """running the destructor of t has no effect any rule looks at"""
    r = _boring.get(t)
    if r is None:
        s = t or ''
        r = not any(x in s for x in ('unique_ptr', 'shared_ptr', 'lock', 'jthread', 'thread')) and not any(x in s for x in RAII)
        _boring[t] = r
    return r


class Instr:
    __slots__ = ('op', 'dst', 'a', 'x', 'line', 'succ', 'eh', 'idx', 'npred', 'scope')

    def __init__(self, op, dst=None, a=(), line=0, **x):
        self.op, self.dst, self.a, self.line, self.x = op, dst, tuple(a), line, x
        self.succ = []
        self.eh = None
        self.npred = 0
        self.idx = -1

    def __repr__(self):
        return '%d: %s %s <- %s %s -> %s' % (self.idx, self.op, self.dst, self.a,
                                             {k: (v if not isinstance(v, dict) else v.get('q', '..')) for k, v in self.x.items() if k != 'e'}, self.succ)


class Label:
    __slots__ = ("pos",)

    def __init__(self):
        self.pos = None


class IRFn:
    def __init__(self, f):
        self.f = f
        self.id, self.q, self.qn = f['id'], f['q'], qn(f['q'])
        self.file, self.line = f['file'], f['line']
        self.params = f['params']
        self.coro = bool(f.get('coro'))
        self.instrs = []
        self.cls = f.get('cls')

    def dump(self):
        return '\n'.join(map(repr, self.instrs))


class Lower:
    def __init__(self, f):
        self.f = f
        self.fn = IRFn(f)
        self.code = []          # Instr | Label
        self.nt = 0
        self.scopes = []        # list of lists of (varid, name, type, line)
        self.loops = []         # (break label, continue label, scope depth)
        self.labels = {}
        self.trys = []          # (handler label, scope depth)
        self.pads = {}          # (live vars, try idx) -> Label
        self.line = f['line']
        self.nslot = 0
        self.declared = []

    # -------------------------------------------------- emission
    def tmp(self):
        self.nt += 1
        return self.nt

    def emit(self, op, dst=None, a=(), **x):
        i = Instr(op, dst, a, self.line, **x)
        if op in ('call', 'callx', 'ctor', 'await', 'throw', 'dtor', 'new'):
            i.eh = self.pad()
        self.code.append(i)
        return dst

    def val(self, op, a=(), **x):
        return self.emit(op, self.tmp(), a, **x)

    def mark(self, l):
        self.code.append(l)

    def jump(self, l):
        self.emit('jump', x_to=l)

    def br(self, t, a, b):
        self.emit('br', None, (t,), x_t=a, x_f=b)

    def live(self, depth=0):
        return tuple(v for s in self.scopes[depth:] for v in s)

    def pad(self):
        key = (self.live(), len(self.trys) and self.trys[-1][0] or None)
        if key not in self.pads:
            self.pads[key] = (Label(), list(self.scopes), list(self.trys))
        return self.pads[key][0]

    def dtors(self, depth):
        for s in reversed(self.scopes[depth:]):
            for v in reversed(s):
                self.emit_dtor(v)

    def emit_dtor(self, v):
        vid, name, t, param = v
        a = self.val('addr_var', id=vid, n=name)
        self.emit('dtor', None, (a,), cls=t, n=name, param=param)

    # -------------------------------------------------- entry
    def run(self):
        f = self.f
        self.scopes.append([(p['id'], p['n'], p['t'], True) for p in f['params'] if p.get('dtor') and not p.get('isref')])
        if f['fk'] == 'ctor':
            for i in f.get('inits', []):
                self.ctor_init(i)
        body = f.get('body')
        if body:
            self.stmt(body)
        self.dtors(0)
        self.emit('coret' if f.get('coro') else 'ret', implicit=1)
        # landing pads
        done = set()
        while True:
            todo = [k for k in self.pads if k not in done]
            if not todo:
                break
            for k in todo:
                done.add(k)
                l, scopes, trys = self.pads[k]
                self.mark(l)
                self.scopes, self.trys = [list(s) for s in scopes], []
                depth = trys[-1][1] if trys else 0
                save = self.emit
                # destructors on the unwinding path cannot themselves unwind
                for s in reversed(self.scopes[depth:]):
                    for v in reversed(s):
                        vid, name, t, param = v
                        a = self.tmp()
                        self.code.append(Instr('addr_var', a, (), self.line, id=vid, n=name))
                        self.code.append(Instr('dtor', None, (a,), self.line, cls=t, n=name, param=param, unwind=1))
                if trys:
                    self.code.append(Instr('jump', None, (), self.line, x_to=trys[-1][0]))
                else:
                    self.code.append(Instr('unwind', None, (), self.line))
        return self.finish()

    def finish(self):
        pos = 0
        out = []
        for c in self.code:
            if isinstance(c, Label):
                c.pos = pos
            else:
                c.idx = pos
                out.append(c)
                pos += 1
        n = len(out)
        for i in out:
            if i.op == 'jump':
                i.succ = [i.x.pop('x_to').pos]
            elif i.op == 'br':
                i.succ = [i.x.pop('x_t').pos, i.x.pop('x_f').pos]
            elif i.op in ('ret', 'coret', 'unwind'):
                i.succ = []
            elif i.op == 'throw':
                i.succ = []
            elif i.op == 'choose':
                i.succ = [l.pos for l in i.x.pop('x_ls')]
            else:
                i.succ = [i.idx + 1] if i.idx + 1 < n else []
            if i.eh is not None:
                i.eh = i.eh.pos
        for i in out:
            for s in i.succ:
                if s < n:
                    out[s].npred += 1
            if i.eh is not None:
                out[i.eh].npred += 1
        if out:
            out[0].npred += 1
        # loop heads: targets of back edges
        self.fn.instrs = out
        live = [frozenset()] * n
        changed = True
        while changed:
            changed = False
            for i in reversed(out):
                l = set()
                for t in i.succ:
                    if t < n:
                        l |= live[t]
                if i.eh is not None:
                    l |= live[i.eh]
                if i.dst is not None:
                    l.discard(i.dst)
                l.update(x for x in i.a if x is not None)
                if i.x.get('sz') is not None and i.op == 'new':
                    l.add(i.x['sz'])
                if l != live[i.idx]:
                    live[i.idx] = frozenset(l)
                    changed = True
        self.fn.live = live
        # variables and slots that are mentioned on some path from here
        use = {}
        for i in out:
            for a in i.a:
                if a is not None:
                    use.setdefault(a, []).append(i)
        ment = [None] * n
        for i in out:
            if i.op == 'addr_var':
                us = use.get(i.dst, [])
                if us and all(u.op == 'dtor' and boring(u.x.get('cls')) for u in us):
                    continue
                if us and all(u.op == 'decl' for u in us):
                    continue
                ment[i.idx] = i.x['id']
            elif i.op in ('slot', 'slotref'):
                ment[i.idx] = ('slot', i.x['n'])
        vl = [frozenset()] * n
        changed = True
        while changed:
            changed = False
            for i in reversed(out):
                ss = [t for t in i.succ if t < n]
                if i.eh is not None:
                    ss.append(i.eh)
                if len(ss) == 1 and ment[i.idx] is None:
                    l = vl[ss[0]]
                else:
                    l = frozenset().union(*[vl[t] for t in ss])
                    if ment[i.idx] is not None:
                        l = l | {ment[i.idx]}
                if l != vl[i.idx]:
                    vl[i.idx] = l
                    changed = True
        self.fn.vlive = vl
        # loop membership by layout: [head, last back edge source]
        rng = {}
        for i in out:
            for t in i.succ:
                if t <= i.idx:
                    rng[t] = max(rng.get(t, 0), i.idx)
        self.fn.loops = sorted(rng.items())
        self.fn.inloop = [any(h <= k <= e for h, e in rng.items()) for k in range(n)]
        self.fn.heads = {s for i in out for s in i.succ if s <= i.idx}
        # symbols defined inside each loop: instruction index ranges (natural, by layout)
        return self.fn

    def ctor_init(self, i):
        if i.get('i') is None:
            return
        th = self.val('this')
        if i.get('m'):
            a = self.val('field', (th,), n=i['m'])
            if i.get('isref'):
                v = self.ex(i['i'])
                self.emit('store', None, (a, v), ini=1, ref=1)
            else:
                self.init_into(a, i['i'])
        else:
            self.ex(i['i'], into=th)

    # -------------------------------------------------- statements
    def stmt(self, s):
        if s is None:
            return
        k = s['k']
        if 'l' in s:
            self.line = s['l']
        m = getattr(self, 's_' + k, None)
        if m:
            m(s)
            return
        # expression statement
        self.ex(s, discard=True)
        self.emit('sb')

    def s_block(self, s):
        self.scopes.append([])
        d0, s0 = len(self.declared), self.nslot
        for c in s['b']:
            self.stmt(c)
        self.dtors(len(self.scopes) - 1)
        self.scopes.pop()
        if len(self.scopes) > 1:
            self.emit('kill', vars=tuple(self.declared[d0:]), slots=(s0 + 1, self.nslot))
        del self.declared[d0:]

    def declare(self, v):
        self.line = v.get('l', self.line)
        if v.get('static'):
            if 'i' in v:
                a = self.val('addr_glob', q=v['q'], tls=v.get('tls'))
                self.init_into(a, v['i'])
            return
        a = self.val('addr_var', id=v['id'], n=v['n'])
        self.declared.append(v['id'])
        self.emit('decl', None, (a,), n=v['n'], t=v['t'], id=v['id'])
        if v.get('isref') and 'i' in v:
            r = self.ex(v['i'])
            if not v['i'].get('lv'):
                r = self.spill(r, v['i'].get('t'))
            self.emit('store', None, (a, r), ini=1, ref=1, n=v['n'])
        elif 'i' in v:
            self.init_into(a, v['i'], n=v['n'])
        if v.get('dtor'):
            self.scopes[-1].append((v['id'], v['n'], v['t'], False))
        for b in v.get('binds', []):
            if b.get('hv'):
                self.declare(b['hv'])

    def init_into(self, a, e, n=None):
        r = self.ex(e, into=a)
        if r is not None:
            if e.get('lv'):
                r = self.val('load', (r,), t=e.get('t'))
            self.emit('store', None, (a, r), ini=1, n=n)

    def s_decl(self, s):
        for v in s['v']:
            self.declare(v)
        self.emit('sb')

    def s_if(self, s):
        self.scopes.append([])
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cvd'):
            self.declare(s['cvd'])
        if s.get('consteval'):
            self.stmt(s.get('y') if s['consteval'] == 1 else s.get('x'))
        elif s.get('cx') and s['c'] is not None and 'cv' in s['c']:
            if s['c']['cv'] != '0':
                self.stmt(s.get('x'))
            else:
                self.stmt(s.get('y'))
        else:
            T, F, E = Label(), Label(), Label()
            self.cond(s['c'], T, F)
            self.mark(T)
            self.emit('sb')
            self.sub(s.get('x'))
            self.jump(E)
            self.mark(F)
            self.emit('sb')
            self.sub(s.get('y'))
            self.mark(E)
            self.emit('nop')
        self.dtors(len(self.scopes) - 1)
        self.scopes.pop()

    def sub(self, s):
        if s is None:
            return
        self.scopes.append([])
        self.stmt(s)
        self.dtors(len(self.scopes) - 1)
        self.scopes.pop()

    def s_while(self, s):
        H, B, E = Label(), Label(), Label()
        self.mark(H)
        self.emit('head')
        self.scopes.append([])
        depth = len(self.scopes) - 1
        if s.get('cvd'):
            self.declare(s['cvd'])
        self.line = s['l']
        X = Label()
        self.cond(s['c'], B, X)
        self.mark(B)
        self.loops.append((E, H, depth))
        self.emit('sb')
        self.sub(s['b'])
        self.loops.pop()
        self.dtors(depth)
        self.jump(H)
        self.mark(X)
        self.dtors(depth)
        self.scopes.pop()
        self.mark(E)
        self.emit('nop')

    def s_do(self, s):
        H, C, E = Label(), Label(), Label()
        self.mark(H)
        self.emit('head')
        self.loops.append((E, C, len(self.scopes)))
        self.sub(s['b'])
        self.loops.pop()
        self.mark(C)
        self.emit('nop')
        self.cond(s['c'], H, E)
        self.mark(E)
        self.emit('nop')

    def s_for(self, s):
        self.scopes.append([])
        depth = len(self.scopes) - 1
        if s.get('init'):
            self.stmt(s['init'])
        H, B, C, E, X = Label(), Label(), Label(), Label(), Label()
        self.mark(H)
        self.emit('head')
        if s.get('cvd'):
            self.declare(s['cvd'])
        if s.get('c'):
            self.cond(s['c'], B, X)
        else:
            self.jump(B)
        self.mark(B)
        self.emit('sb')
        self.loops.append((X, C, len(self.scopes)))
        self.sub(s['b'])
        self.loops.pop()
        self.mark(C)
        self.emit('nop')
        if s.get('inc'):
            self.ex(s['inc'], discard=True)
            self.emit('sb')
        self.jump(H)
        self.mark(X)
        self.emit('nop')
        self.dtors(depth)
        self.scopes.pop()

    def s_foreach(self, s):
        self.scopes.append([])
        depth = len(self.scopes) - 1
        if s.get('init'):
            self.stmt(s['init'])
        r = self.ex(s['r'])
        if not s['r'].get('lv'):
            r = self.spill(r, s['r'].get('t'))
        self.nslot += 1
        rs = self.val('slot', n=self.nslot, t='range')
        self.emit('store', None, (rs, r), ini=1, ref=1)
        H, B, X = Label(), Label(), Label()
        self.mark(H)
        self.emit('head')
        rs2 = self.val('slot', n=self.nslot, t='range', again=1) if False else rs
        rr = self.val('load', (self.val('slotref', n=self.nslot),), t='range')
        m = self.val('more', (rr,), t=s['r'].get('t'))
        self.br(m, B, X)
        self.mark(B)
        self.emit('sb')
        self.scopes.append([])
        v = s['v']
        rr = self.val('load', (self.val('slotref', n=self.nslot),), t='range')
        el = self.val('elem', (rr,), t=v['t'])
        a = self.val('addr_var', id=v['id'], n=v['n'])
        self.emit('decl', None, (a,), n=v['n'], t=v['t'], id=v['id'])
        if v.get('isref'):
            self.emit('store', None, (a, el), ini=1, ref=1, n=v['n'])
        else:
            self.emit('store', None, (a, self.val('load', (el,), t=v['t'])), ini=1, n=v['n'])
        if v.get('dtor'):
            self.scopes[-1].append((v['id'], v['n'], v['t'], False))
        C = Label()
        self.loops.append((X, C, len(self.scopes)))
        self.sub(s['b'])
        self.loops.pop()
        self.mark(C)
        self.emit('nop')
        self.dtors(len(self.scopes) - 1)
        self.scopes.pop()
        self.jump(H)
        self.mark(X)
        self.emit('nop')
        self.dtors(depth)
        self.scopes.pop()

    def s_switch(self, s):
        self.scopes.append([])
        depth = len(self.scopes) - 1
        if s.get('init'):
            self.stmt(s['init'])
        if s.get('cvd'):
            self.declare(s['cvd'])
        self.line = s['l']
        v = self.ex(s['c'])
        if s['c'].get('lv'):
            v = self.val('load', (v,))
        E = Label()
        cases = []
        # collect case labels anywhere in the body (not in nested switches)

        def collect(n):
            if isinstance(n, dict):
                if n.get('k') == 'switch':
                    return
                if n.get('k') in ('case', 'default'):
                    l = Label()
                    n['_lab'] = l
                    cases.append((n, l))
                for kk, vv in n.items():
                    if kk != '_lab':
                        collect(vv)
            elif isinstance(n, list):
                for x in n:
                    collect(x)
        collect(s['b'])
        dfl = None
        self.nslot += 1
        slot = self.nslot
        sa = self.val('slot', n=slot, t='switch')
        self.emit('store', None, (sa, v), ini=1)
        for n, l in cases:
            if n['k'] == 'default':
                dfl = l
                continue
            vv = self.val('load', (self.val('slotref', n=slot),))
            nx = Label()
            if 'cv2' in n:
                lo = self.val('const', v=int(n['cv']))
                hi = self.val('const', v=int(n['cv2']))
                mid = Label()
                self.br(self.val('bin', (lo, vv), o='<='), mid, nx)
                self.mark(mid)
                self.br(self.val('bin', (vv, hi), o='<='), l, nx)
            else:
                c = self.val('const', v=int(n['cv'])) if 'cv' in n else self.ex(n['v'])
                self.br(self.val('bin', (vv, c), o='=='), l, nx)
            self.mark(nx)
        self.jump(dfl or E)
        self.loops.append((E, self.loops[-1][1] if self.loops else None, len(self.scopes), self.loops[-1][2] if self.loops else 0))
        self.sub(s['b'])
        self.loops.pop()
        self.jump(E)
        self.mark(E)
        self.emit('nop')
        self.dtors(depth)
        self.scopes.pop()
        for n, l in cases:
            n.pop('_lab', None)

    def s_case(self, s):
        if '_lab' in s:
            self.mark(s['_lab'])
            self.emit('nop')
        self.stmt(s['b'])

    s_default = s_case

    def s_break(self, s):
        if not self.loops:
            return
        t = self.loops[-1]
        self.dtors(t[2])
        self.jump(t[0])

    def s_continue(self, s):
        if not self.loops:
            return
        t = self.loops[-1]
        self.dtors(t[3] if len(t) > 3 else t[2])
        self.jump(t[1])

    def s_null_stmt(self, s):
        pass

    def s_return(self, s, op='ret'):
        v = None
        if s.get('x') is not None:
            e = s['x']
            v = self.ex(e)
            ref = e.get('lv')
        if v is not None:
            self.nslot += 1
            sl = self.nslot
            a = self.val('slot', n=sl, t='ret')
            self.emit('store', None, (a, v), ini=1, ret=1, rct=s['x'].get('t') if s['x'].get('lv') else None)
        self.dtors(0)
        if v is not None:
            v = self.val('load', (self.val('slotref', n=sl),))
            self.emit(op, None, (v,), lv=bool(s['x'].get('lv')), t=s['x'].get('t'))
        else:
            self.emit(op)

    def s_coreturn(self, s):
        self.s_return(s, 'coret')

    def s_try(self, s):
        H, E = Label(), Label()
        self.trys.append((H, len(self.scopes)))
        self.sub(s['b'])
        self.trys.pop()
        self.jump(E)
        self.mark(H)
        ls = [Label() for _ in s['h']]
        esc = Label()
        catchall = any(h['ct'] == '...' for h in s['h'])
        self.emit('choose', x_ls=ls + ([] if catchall else [esc]), types=[h['ct'] for h in s['h']])
        for h, l in zip(s['h'], ls):
            self.mark(l)
            self.line = h['l']
            self.emit('catch', t=h['ct'])
            self.scopes.append([])
            if h.get('v'):
                v = h['v']
                a = self.val('addr_var', id=v['id'], n=v['n'])
                x = self.val('excobj')
                self.emit('store', None, (a, x), ini=1, ref=bool(v.get('isref')))
            self.stmt(h['b'])
            self.scopes.pop()
            self.jump(E)
        if not catchall:
            self.mark(esc)
            self.emit('rethrow')
            self.code[-1].succ = []
            l = self.pad()
            self.jump(l)
        self.mark(E)
        self.emit('nop')

    def s_label(self, s):
        l = self.labels.setdefault(s['n'], Label())
        self.mark(l)
        self.emit('head')
        self.stmt(s['b'])

    def s_goto(self, s):
        self.jump(self.labels.setdefault(s['n'], Label()))

    # -------------------------------------------------- conditions
    def cond(self, e, T, F):
        k = e['k']
        if k == 'bin' and e['op'] in ('&&', '||'):
            M = Label()
            if e['op'] == '&&':
                self.cond(e['x'], M, F)
            else:
                self.cond(e['x'], T, M)
            self.mark(M)
            self.emit('nop')
            self.cond(e['y'], T, F)
            return
        if k == 'un' and e['op'] == '!':
            self.cond(e['x'], F, T)
            return
        if k == 'cast' and e.get('ck') in ('IntegralToBoolean', 'NoOp') and not e.get('lv') and e['x']['k'] in ('bin', 'un'):
            self.cond(e['x'], T, F)
            return
        v = self.ex(e)
        if e.get('lv'):
            v = self.val('load', (v,), t=e.get('t'))
        self.line = e.get('l', self.line)
        self.br(v, T, F)

    # -------------------------------------------------- expressions
    def spill(self, v, t=None):
        self.nslot += 1
        a = self.val('slot', n=self.nslot, t=t)
        self.emit('store', None, (a, v), ini=1)
        return a

    def newslot(self, t=None):
        self.nslot += 1
        return self.val('slot', n=self.nslot, t=t)

    def rv(self, e):
        """value of e"""
        v = self.ex(e)
        if e is not None and e.get('lv'):
            v = self.val('load', (v,), t=e.get('t'))
        return v

    def ex(self, e, into=None, discard=False):
        """glvalue -> address temp, prvalue -> value temp.
        With into: a class prvalue is constructed at that address and None is returned
        (a non-None result must still be stored by the caller)."""
        if e is None:
            return self.val('unk')
        self.line = e.get('l', self.line)
        k = e['k']
        if 'cv' in e and k not in ('call', 'asg', 'ctor') and not e.get('lv'):
            q = None
            x = e
            while isinstance(x, dict) and x.get('k') in ('cast', 'ld'):
                x = x['x']
            if isinstance(x, dict) and x.get('k') == 'ref':
                q = x.get('q') or x.get('n')
            return self.val('const', v=int(e['cv']), q=q, t=e.get('t'))
        m = getattr(self, 'e_' + k, None)
        if m is None:
            for c in e.get('c', []) if isinstance(e.get('c'), list) else []:
                if isinstance(c, dict):
                    if c.get('k') in ('block', 'if', 'while', 'for', 'decl', 'return'):
                        self.stmt(c)
                    else:
                        self.ex(c)
            return self.val('unk', t=e.get('t'), k=e.get('x') if k == 'x' else k)
        if k in ('ctor', 'init', 'cond', 'call', 'cast', 'stmtexpr', 'await', 'lambda', 'zero'):
            return m(e, into)
        if k == 'asg' or k == 'un':
            return m(e, discard)
        return m(e)

    def e_int(self, e):
        return self.val('const', v=int(e.get('cv', 0)), t=e.get('t'))

    def e_sizeof(self, e):
        return self.val('unk', t=e.get('t'))

    def e_null(self, e):
        return self.val('const', v=0, t='ptr')

    def e_float(self, e):
        return self.val('constf', v=e['v'])

    def e_str(self, e):
        return self.val('str', v=e.get('v', ''))

    def e_this(self, e):
        return self.val('this')

    def e_srcloc(self, e):
        return self.val('unk')

    def e_zero(self, e, into=None):
        t = e.get('t', '')
        if into is not None and is_class(t):
            self.emit('zeroinit', None, (into,), t=t)
            return None
        return self.val('const', v=0, t=t)

    def e_ref(self, e):
        d = e['d']
        if d == 'fn':
            return self.val('fnref', fn=e['fn'])
        if d == 'enum':
            return self.val('const', v=int(e['cv']), q=e['q'], t=e.get('t'))
        if d in ('var', 'parm'):
            if e.get('cap'):
                return self.val('addr_cap', n=e['n'], id=e['id'], isref=bool(e.get('isref')))
            a = self.val('addr_var', id=e['id'], n=e['n'])
            if e.get('isref'):
                a = self.val('load', (a,), t='ref')
            return a
        if d == 'glob':
            return self.val('addr_glob', q=e['q'], cv=e.get('cv'), tls=e.get('tls'))
        if d == 'bind':
            if e.get('bx'):
                return self.ex(e['bx'])
            return self.val('addr_var', id=e['id'], n=e['n'])
        if 'cv' in e:
            return self.val('const', v=int(e['cv']), t=e.get('t'))
        return self.val('unk', t=e.get('t'))

    def e_mem(self, e):
        b = self.ex(e['b'])
        if not e.get('arr') and not e['b'].get('lv'):
            b = self.spill(b, e['b'].get('t'))
        if e.get('anon'):
            return b
        a = self.val('field', (b,), n=e['n'], own=e.get('own'))
        if e.get('isref'):
            a = self.val('load', (a,), t='ref')
        return a

    def e_memfn(self, e):
        b = self.ex(e['b'])
        return self.val('fnref', fn=e['fn'], a=(b,))

    def e_ld(self, e):
        a = self.ex(e['x'])
        if not e['x'].get('lv'):
            return a
        return self.val('load', (a,), t=e.get('t'))

    def e_mat(self, e):
        a = self.newslot(e.get('t'))
        self.init_into(a, e['x'])
        return a

    def args(self, e):
        out, lv = [], []
        for x in e.get('a', []):
            t = self.ex(x)
            out.append(t)
            lv.append(bool(x and x.get('lv')))
        return out, lv

    ALG = {'find_if': 'find', 'find_if_not': 'findn', 'any_of': 'any', 'all_of': 'all', 'none_of': 'none', 'for_each': 'each', 'count_if': 'count'}

    def algorithm(self, e):
        """std algorithms that apply a callable to each element of a range, written as the loop they are"""
        q = qn(e['fn']['q'])
        m = re.match(r'std::(\w+)$', q) or re.match(r'std::ranges::__(\w+)_fn::operator\(\)$', q)
        kind = self.ALG.get(m.group(1)) if m else None
        n = len(e.get('a', []))
        rng = 'ranges' in q
        pos = (1, 2) if rng else (2,)
        ts = [x.get('t') or '' if x else '' for x in e.get('a', [])]
        pos = [i for i in pos if i < n and e['a'][i] and ('lambda' in ts[i] or 'anonymous class' in ts[i] or '(*)' in ts[i])]
        if kind is None or not pos or (rng and any(x and x.get('k') not in ('zero', 'init', None, 'defarg') for x in e['a'][pos[0] + 1:])):
            return None
        return kind, pos[0], rng

    def e_algorithm(self, e, kind, pos, rng):
        a = [self.ex(x) for x in e['a'][:pos]]
        cl = self.ex(e['a'][pos])
        if e['a'][pos].get('lv'):
            cl = self.val('load', (cl,), t=e['a'][pos].get('t'))
        t = e.get('t')
        slots = []
        for v in (a[0], a[1] if pos == 2 else None, cl):
            if v is None:
                slots.append(None)
                continue
            self.nslot += 1
            slots.append(self.nslot)
            self.emit('store', None, (self.val('slot', n=self.nslot), v), ini=1)
        self.newslot(t)
        res = self.nslot

        def get(n, t='range'):
            return self.val('load', (self.val('slotref', n=n),), t=t)

        def put(v):
            self.emit('store', None, (self.val('slotref', n=res), v), ini=1)
        H, B, F, C, X, E = Label(), Label(), Label(), Label(), Label(), Label()
        bound = kind in ('find', 'findn')
        self.mark(H)
        self.emit('head')
        r = self.val('rangeof', (get(slots[0]),), it=pos == 2)
        m = self.val('more', (r,), t=None)
        self.br(m, B, X)
        self.mark(B)
        self.emit('sb')
        r = self.val('rangeof', (get(slots[0]),), it=pos == 2)
        el = self.val('elem', (r,), t=None)
        self.nslot += 1
        es = self.nslot
        self.emit('store', None, (self.val('slot', n=es), el), ini=1)
        v = self.val('callx', (get(slots[2]), get(es)), lv=[True], t='bool' if kind != 'each' else None, elem=1)
        if kind in ('each', 'count'):
            self.jump(C)
        elif kind in ('all', 'findn'):
            self.br(v, C, F)
        else:
            self.br(v, F, C)
        self.mark(F)
        self.emit('nop')
        if bound:
            f = get(es)
            if slots[1] is not None:
                f = self.val('notend', (f, get(slots[1])))
            put(f)
        else:
            put(self.val('const', t='bool', v=1 if kind == 'any' else 0))
        self.jump(E)
        self.mark(C)
        self.emit('nop')
        self.jump(H)
        self.mark(X)
        self.emit('nop')
        if bound:
            put(get(slots[1]) if slots[1] is not None else self.val('rangeend', (get(slots[0]),)))
        elif kind == 'count':
            put(self.val('unk'))
        else:
            put(self.val('const', t='bool', v=0 if kind == 'any' else 1))
        self.mark(E)
        self.emit('nop')
        return self.val('load', (self.val('slotref', n=res),), t=t)

    def e_call(self, e, into=None):
        o = None
        line = e.get('l', self.line)
        if e.get('fn') is not None:
            g = self.algorithm(e)
            if g:
                self.line = line
                return self.e_algorithm(e, *g)
        if e.get('fn') is None:
            c = self.ex(e['ce']) if e.get('ce') else self.val('unk')
            a, lv = self.args(e)
            self.line = line
            return self.val('callx', (c,) + tuple(a), lv=lv, t=e.get('t'))
        if e.get('o') is not None:
            o = self.ex(e['o'])
            if not e.get('arr') and not e['o'].get('lv') and not _isptr(e['o'].get('t')):
                o = self.spill(o, e['o'].get('t'))
        a, lv = self.args(e)
        self.line = line
        r = self.val('call', ((o,) if o is not None else ()) + tuple(a), fn=e['fn'], hasobj=o is not None, lv=lv,
                     t=e.get('t'), opr=e.get('op'), rlv=bool(e.get('lv')), argx=None, ot=(e['o'].get('t') if e.get('o') else None),
                     at=[x.get('t') if x else None for x in e.get('a', [])])
        if e['fn'].get('nr'):
            self.emit('noreturn')
        return r

    def e_ctor(self, e, into=None):
        a = into if into is not None else self.newslot(e.get('t'))
        args, lv = self.args(e)
        self.line = e.get('l', self.line)
        self.emit('ctor', None, (a,) + tuple(args), fn=e['fn'], cls=e.get('cls'), lv=lv, cp=e.get('cp'), mv=e.get('mv'), t=e.get('t'),
                  at=[x.get('t') if x else None for x in e.get('a', [])])
        if into is not None:
            return None
        return self.val('load', (a,), t=e.get('t'), whole=1)

    def e_init(self, e, into=None):
        a = e.get('a', [])
        if 'fl' not in e and not _isarr(e.get('t')):
            if len(a) == 1:
                r = self.ex(a[0], into)
                if r is not None and a[0].get('lv') and not e.get('lv'):
                    r = self.val('load', (r,), t=e.get('t'))
                return r
            if not a:
                return self.val('const', v=0, t=e.get('t'))
        if 'fl' in e and len(a) == 1 and not e['fl'] and False:
            pass
        dst = into if into is not None else self.newslot(e.get('t'))
        self.emit('aggr', None, (dst,), t=e.get('t'))
        fl = e.get('fl')
        for i, x in enumerate(a):
            if x is None:
                continue
            if fl is not None:
                n = e.get('uf') if e.get('uf') else (fl[i] if i < len(fl) else '?%d' % i)
                if n == '<base>':
                    r = self.ex(x, dst)
                    continue
                fa = self.val('field', (dst,), n=n)
            else:
                ci = self.val('const', v=i)
                fa = self.val('idx', (dst, ci))
            if x.get('lv'):
                # reference members bind; others load
                r = self.ex(x)
                self.emit('store', None, (fa, r), ini=1, ref=1)
            else:
                self.init_into(fa, x)
        if into is not None:
            return None
        return self.val('load', (dst,), t=e.get('t'), whole=1)

    def e_asg(self, e, discard=False):
        if e['op'] == '=':
            v = self.rv(e['y'])
            a = self.ex(e['x'])
            self.line = e.get('l', self.line)
            self.emit('store', None, (a, v), t=e.get('t'))
            return a
        v = self.rv(e['y'])
        a = self.ex(e['x'])
        o = self.val('load', (a,), t=e['x'].get('t'))
        self.line = e.get('l', self.line)
        r = self.val('bin', (o, v), o=e['op'][:-1], t=e.get('t'), comp=1)
        self.emit('store', None, (a, r), t=e.get('t'))
        return a

    def e_un(self, e, discard=False):
        op = e['op']
        if op == '&':
            if e['x']['k'] == 'ref' and e['x'].get('d') == 'fn':
                return self.ex(e['x'])
            a = self.ex(e['x'])
            return a
        if op == '*':
            return self.rv(e['x'])
        if op in ('++', '--', 'post++', 'post--'):
            a = self.ex(e['x'])
            o = self.val('load', (a,), t=e['x'].get('t'))
            one = self.val('const', v=1)
            r = self.val('bin', (o, one), o='+' if '++' in op else '-', t=e['x'].get('t'), comp=1)
            self.emit('store', None, (a, r), t=e['x'].get('t'))
            return o if op.startswith('post') else a
        if op == '__extension__':
            return self.ex(e['x'])
        if op == 'co_await':
            return self.ex(e['x'])
        v = self.rv(e['x'])
        return self.val('un', (v,), o=op, t=e.get('t'))

    def e_bin(self, e):
        op = e['op']
        if op in ('&&', '||'):
            r = self.newslot('bool')
            n = self.nslot
            T, F, E = Label(), Label(), Label()
            self.cond(e, T, F)
            self.mark(T)
            self.emit('store', None, (self.val('slotref', n=n), self.val('const', v=1)), ini=1)
            self.jump(E)
            self.mark(F)
            self.emit('store', None, (self.val('slotref', n=n), self.val('const', v=0)), ini=1)
            self.mark(E)
            self.emit('nop')
            return self.val('load', (self.val('slotref', n=n),), t='bool')
        if op == ',':
            self.ex(e['x'], discard=True)
            return self.ex(e['y'])
        x = self.rv(e['x'])
        y = self.rv(e['y'])
        self.line = e.get('l', self.line)
        return self.val('bin', (x, y), o=op, t=e.get('t'), xt=e['x'].get('t'))

    def e_cond(self, e, into=None):
        if into is None:
            self.newslot(e.get('t'))
            n = self.nslot
        T, F, E = Label(), Label(), Label()
        self.cond(e['c'], T, F)
        for l, x in ((T, e['x']), (F, e['y'])):
            self.mark(l)
            self.emit('nop')
            if into is not None:
                r = self.ex(x, into)
                if r is not None:
                    if x.get('lv'):
                        r = self.val('load', (r,))
                    self.emit('store', None, (into, r), ini=1)
            elif x['k'] == 'throw':
                self.ex(x)
            else:
                r = self.ex(x)
                if x.get('lv') and not e.get('lv'):
                    r = self.val('load', (r,))
                self.emit('store', None, (self.val('slotref', n=n), r), ini=1)
            self.jump(E)
        self.mark(E)
        self.emit('nop')
        if into is not None:
            return None
        return self.val('load', (self.val('slotref', n=n),), t=e.get('t'))

    IDENT = {'UncheckedDerivedToBase', 'DerivedToBase', 'BaseToDerived', 'NoOp', 'UserDefinedConversion',
             'ConstructorConversion', 'LValueBitCast', 'BitCast', 'ToVoid', 'ArrayToPointerDecay', 'Dynamic',
             'FunctionToPointerDecay', 'NullToPointer', 'AtomicToNonAtomic', 'NonAtomicToAtomic', 'BuiltinFnToFnPtr',
             'NullToMemberPointer'}

    def e_cast(self, e, into=None):
        ck = e.get('ck')
        if ck in self.IDENT:
            x = e['x']
            r = self.ex(x, into)
            if r is None:
                return None
            if x.get('lv') and not e.get('lv') and ck not in ('ArrayToPointerDecay', 'ToVoid') and ck in ('NoOp', 'UserDefinedConversion', 'ConstructorConversion'):
                r = self.val('load', (r,), t=e.get('t'))
            if ck in ('BitCast', 'LValueBitCast') and e.get('ex'):
                return self.val('cast', (r,), ck=ck, t=e.get('t'), ft=e.get('ft'))
            return r
        v = self.rv(e['x'])
        return self.val('cast', (v,), ck=ck, t=e.get('t'), ft=e.get('ft'), ex=e.get('ex'))

    def e_lambda(self, e, into=None):
        caps = []
        ts = []
        for c in e['caps']:
            if c.get('this'):
                t = self.val('this')
                caps.append(('this', 'this', 0))
                ts.append(t)
            else:
                if c['ref']:
                    t = self.ex(c['i']) if c.get('i') else self.val('addr_var', id=c['id'], n=c['n'])
                    caps.append(('ref', c['n'], c['id']))
                else:
                    if c.get('i'):
                        x = c['i']
                        if x['k'] in ('ctor', 'init') and False:
                            pass
                        t = self.rv(x)
                    else:
                        t = self.val('unk')
                    caps.append(('val', c['n'], c['id']))
                ts.append(t)
        return self.val('lambda', tuple(ts), caps=caps, fns=e['fns'], cls=e.get('cls'))

    def e_await(self, e, into=None):
        o = self.ex(e['x'])
        self.line = e.get('l', self.line)
        refs = [e.get('rdy'), e.get('sus'), e.get('res')]
        awt = qn(e.get('awt') or '')
        if awt not in ('kio::Task', 'Task') and all(r and r.get('in') for r in refs):
            return self.awaiter(e, o, refs)
        return self.val('await', (o,), lv=bool(e['x'].get('lv')), t=e.get('t'), awt=e.get('awt'), sus=e.get('sus'), res=e.get('res'),
                        rdy=e.get('rdy'), rlv=bool(e.get('lv')), ot=e['x'].get('t'))

    def awaiter(self, e, o, refs):
        """the awaiter protocol, spelled out"""
        l = e.get('l', self.line)
        a = o if e['x'].get('lv') else self.spill(o, e['x'].get('t'))
        R, S, W = Label(), Label(), Label()

        def call(ref, args=()):
            return self.val('call', (a,) + tuple(args), fn=ref, hasobj=True, lv=[False] * len(args), t=ref.get('rt'),
                            opr=None, rlv=False, argx=None, ot=e['x'].get('t'), at=[None] * len(args))
        self.line = l
        self.br(call(refs[0]), R, S)
        self.mark(S)
        self.emit('nop')
        s = call(refs[1], (self.val('curhandle'),))
        if (refs[1].get('rt') or '') == 'bool':
            self.br(s, W, R)
            self.mark(W)
            self.emit('nop')
        self.emit('suspend', None, (a,), awt=e.get('awt'), sus=refs[1])
        self.jump(R)
        self.mark(R)
        self.emit('nop')
        self.line = l
        return call(refs[2])

    def e_yield(self, e):
        self.ex(e['x'])
        return self.val('unk')

    def e_stmtexpr(self, e, into=None):
        b = e['b']
        self.scopes.append([])
        depth = len(self.scopes) - 1
        body = b['b']
        r = None
        for c in body[:-1]:
            self.stmt(c)
        if body:
            last = body[-1]
            if hasattr(self, 's_' + last['k']):
                self.stmt(last)
            else:
                r = self.ex(last)
                if last.get('lv') and not e.get('lv') and e.get('t') != 'void':
                    r = self.val('load', (r,), t=e.get('t'))
        self.dtors(depth)
        self.scopes.pop()
        if r is None:
            r = self.val('unk', t=e.get('t'))
        return r

    def e_idx(self, e):
        b = self.ex(e['x'])
        i = self.rv(e['y'])
        return self.val('idx', (b, i))

    def e_new(self, e):
        pl = [self.ex(x) for x in e.get('pl', [])]
        sz = self.rv(e['sz']) if e.get('sz') else None
        a = self.val('new', tuple(pl), t=e['nt'], arr=e.get('arr'), sz=sz)
        if e.get('i'):
            self.init_into(a, e['i'])
        return a

    def e_delete(self, e):
        v = self.rv(e['x'])
        self.emit('delete', None, (v,))
        return self.val('unk')

    def e_throw(self, e):
        v = self.rv(e['x']) if e.get('x') else None
        self.emit('throw', None, (v,) if v is not None else (), t=e['x'].get('t') if e.get('x') else None)
        return self.val('unk')

    def e_pseudodtor(self, e):
        self.ex(e['x'])
        return self.val('unk')


def _isptr(t):
    return bool(t) and t.rstrip().endswith('*')


def _isarr(t):
    return bool(t) and t.rstrip().endswith(']')


SCALARS = ('int', 'unsigned', 'long', 'short', 'char', 'bool', 'float', 'double', 'signed', '__int128', 'void', 'std::nullptr_t')


def is_class(t):
    t = (t or '').replace('const ', '').replace('volatile ', '').strip()
    if not t or t.endswith('*') or t.endswith('&') or t.endswith(']'):
        return False
    w = t.split(' ')[0].split('<')[0]
    return w not in SCALARS


_cache = {}


def lower(f):
    r = _cache.get(f['id'])
    if r is None:
        r = _cache[f['id']] = Lower(f).run()
    return r


# ---------------------------------------------------------------- raw AST walking
def walk(n):
    """all dict nodes of a dumped body"""
    st = [n]
    while st:
        x = st.pop()
        if isinstance(x, dict):
            yield x
            for k, v in x.items():
                if isinstance(v, (dict, list)) and k != 'fn' and k != 'awx':
                    st.append(v)
        elif isinstance(x, list):
            st.extend(x)


def calls_of(f):
    """(callee ref, line) of every call, construction and awaiter operation in the body of f"""
    out = []
    roots = [f.get('body')] + [i.get('i') for i in f.get('inits', [])]
    for r in roots:
        if r is None:
            continue
        for n in walk(r):
            if n.get('k') in ('call', 'ctor') and n.get('fn'):
                out.append((n['fn'], n.get('l', 0), n))
            elif n.get('k') == 'ref' and n.get('d') == 'fn':
                out.append((n['fn'], n.get('l', 0), n))
            elif n.get('k') == 'await':
                for k in ('rdy', 'sus', 'res'):
                    if n.get(k):
                        out.append((n[k], n.get('l', 0), n))
    return out
