"""Forward dataflow over the interprocedural control-flow graph.

The analysis keeps, per program point and calling context, a bounded set of
abstract states (memory as access paths -> terms, a set of linear facts over
terms, and the typestate of the rule that is being checked) and iterates to a
fixpoint: states with the same typestate and facts are joined, loop heads widen.
Calls into the repository are followed (helpers are transparent); all other
calls are modelled or opaque.
"""
from collections import deque
from . import ir
from .ir import qn, base_name
from .terms import *
from .facts import CheckError, rel
from . import models

MAXDEPTH = 24


class Frame:
    __slots__ = ('fn', 'ctx', 'this', 'closure', 'retpc', 'dst', 'mode', 'into', 'eh', 'inloop', 'data')

    def __init__(self, fn, ctx, this, closure, retpc, dst, mode, into, eh, inloop, data=None):
        self.fn, self.ctx, self.this, self.closure = fn, ctx, this, closure
        self.retpc, self.dst, self.mode, self.into, self.eh = retpc, dst, mode, into, eh
        self.inloop = inloop
        self.data = data


class State:
    __slots__ = ('mem', 'facts', 'auto', 'frames', 'pc', 'epoch', 'exc', 'tmps', 'path')

    def copy(self):
        s = State()
        s.mem = dict(self.mem)
        s.facts = self.facts
        s.auto = self.auto
        s.frames = self.frames
        s.pc = self.pc
        s.epoch = self.epoch
        s.exc = self.exc
        s.tmps = dict(self.tmps)
        s.path = self.path
        return s

    @property
    def top(self):
        return self.frames[-1]


class Violation:
    def __init__(self, rule, key, file, line, msg, path=None, instance=None):
        self.rule, self.key, self.file, self.line, self.msg = rule, key, rel(file), line, msg
        self.path = path or []
        self.instance = instance

    def ident(self):
        return '%s|%s' % (self.rule, self.key)


class Rule:
    """Base class of the typestate rules run by the engine."""
    init_auto = ()
    max_states = 12
    max_head = 6
    numeric = False           # order facts keep states apart
    strict = False            # wrap-around and narrowing are tracked
    heap_volatile = True      # suspension points invalidate heap contents

    hints = ()                # offsets between the counters of the rule and variables of the code
    nat = ()                  # counters of the rule, at least 0
    sep_null = False          # null pointers are kept apart from addresses

    def head_fact(self, p, b):
        """does the fact keep states apart at loop heads?"""
        return True

    def inline(self, eng, st, fn):
        return True

    def on_call(self, eng, st, ins, fn, obj, args):
        """None for the default treatment, or a list of (state, value)"""
        return None

    def on_await(self, eng, st, ins, val):
        return None

    def on_store(self, eng, st, ins, loc, val):
        pass

    def on_load(self, eng, st, ins, loc, val):
        pass

    def on_dtor(self, eng, st, ins, addr, cls):
        return None

    def on_branch(self, eng, st, ins, pred, taken):
        pass

    def on_exit(self, eng, st, ins, how, val):
        """the entry function ends; how is ret, coret or exc"""

    def on_return(self, eng, st, ins, frame, val):
        pass

    def on_enter(self, eng, st, fn):
        pass

    def on_new(self, eng, st, ins, val):
        pass

    def on_delete(self, eng, st, ins, val):
        pass

    def on_bin(self, eng, st, ins, op, a, b):
        return None

    def on_cast(self, eng, st, ins, v):
        return None

    def on_throw(self, eng, st, ins):
        pass

    def may_throw(self, eng, st, ins, fn):
        return False

    def on_catch(self, eng, st, ins):
        pass

    def on_more(self, eng, st, ins, cont, sym):
        """a range loop asks whether the container has more elements"""

    def on_elem(self, eng, st, ins, cont, sym):
        """a range loop takes the next element of the container"""


NUMT = ('int', 'unsigned int', 'long', 'unsigned long', 'short', 'unsigned short', 'char', 'unsigned char',
        'signed char', 'long long', 'unsigned long long', 'bool')
BITS = {'bool': 1, 'char': 8, 'signed char': 8, 'unsigned char': 8, 'short': 16, 'unsigned short': 16, 'int': 32,
        'unsigned int': 32, 'long': 64, 'unsigned long': 64, 'long long': 64, 'unsigned long long': 64}


def numtype(t):
    if t is None:
        return None
    t = t.replace('const ', '').replace('volatile ', '').strip()
    return t if t in BITS else None


def is_unsigned(t):
    t = numtype(t)
    return t is not None and (t.startswith('unsigned') or t == 'bool')


class Engine:
    def __init__(self, prog, rule, budget=400000):
        self.prog, self.rule = prog, rule
        self.ctxs = {}
        self.ctxinfo = [None]
        self.oldids = {}
        self.kinds = {}
        self.info = {}          # symbol -> description
        self.unsigned = set()
        self.viol = {}
        self.steps = 0
        self.budget = budget
        self.stats = {'functions': set(), 'instrs': set(), 'calls': 0, 'merged': 0}
        self.ent_cache = {}
        self.truncated = False
        self.live_cache = {}

    # ------------------------------------------------------------ reporting
    def report(self, st, ins, rule, msg, key=None, fn=None):
        f = fn or st.top.fn
        line = ins.line if ins is not None else f.line
        k = key if key is not None else '%s:%s' % (f.qn, msg)
        ident = (rule, k)
        if ident not in self.viol:
            self.viol[ident] = Violation(rule, k, f.file, line, msg, self.path_of(st))

    def path_of(self, st):
        out = []
        p = st.path
        while p is not None:
            out.append(p[1])
            p = p[0]
        out.reverse()
        if len(out) > 60:
            out = out[:20] + ['...'] + out[-39:]
        return ['%s:%d' % (rel(f), l) if not isinstance(f, int) else f for f, l in (x for x in out if x != '...')]

    # ------------------------------------------------------------ contexts
    def ctx(self, parent, pc, fid):
        k = (parent, pc, fid)
        r = self.ctxs.get(k)
        if r is None:
            r = self.ctxs[k] = len(self.ctxinfo)
            self.ctxinfo.append(k)
        return r

    # ------------------------------------------------------------ memory
    def loc_of(self, addr):
        if addr[0] == '&':
            return addr[1:]
        return (('*', addr),)

    def load(self, st, loc, t=None):
        mem = st.mem
        v = mem.get(loc)
        if v is None:
            n = len(loc) - 1
            while n > 0:
                b = mem.get(loc[:n])
                if b is not None:
                    v = b
                    for f in loc[n:]:
                        v = self.project(v, f)
                    break
                n -= 1
            else:
                if loc[0][0] == 'v':
                    v = ('init', loc)
                else:
                    v = ('init', loc, st.epoch)
        # assemble sub-entries of a whole-object load
        L = len(loc)
        subs = None
        for l, x in mem.items():
            if len(l) > L and l[:L] == loc:
                if subs is None:
                    subs = []
                subs.append((l[L:], x))
        if subs:
            if v[0] == 'rec':
                d = dict(v[2])
                d.update(subs)
                v = ('rec', v[1], tuple(sorted(d.items(), key=repr)))
            else:
                v = ('rec', v, tuple(sorted(subs, key=repr)))
        if t is not None and is_unsigned(t) and v[0] not in ('c', 'lin', 'le', 'eq', 'ne', 'not', 'rec'):
            self.unsigned.add(v)
        return v

    def project(self, v, f):
        k = v[0]
        if k == 'rec':
            subs = []
            for p, x in v[2]:
                if p == (f,):
                    base = x
                    rest = [(q[1:], y) for q, y in v[2] if len(q) > 1 and q[0] == f]
                    if rest:
                        return ('rec', base, tuple(rest))
                    return base
                if p[0] == f:
                    subs.append((p[1:], x))
            b = self.project(v[1], f)
            if subs:
                return ('rec', b, tuple(subs))
            return b
        if k in ('ok', 'some') and f == '#val':
            return v[1]
        if k == 'err' and f == '#err':
            return v[1]
        if k == 'span':
            if f == '#data':
                return v[1]
            if f == '#size':
                return v[2]
        if k == 'zero':
            return ZERO
        if k == 'app' and v[1] == 'default' and f == '#size':
            return ZERO
        if k == 'unex' and f == '#err':
            return v[1]
        if k == 's':
            if f == '#size':
                return C(len(v[1]))
            if f == '#data':
                return v
        if k == 'mvd':       # moved-from object
            return ('fld', v, f)
        return ('fld', v, f)

    def kill(self, st, loc):
        L = len(loc)
        dead = [l for l in st.mem if l[:L] == loc]
        for l in dead:
            del st.mem[l]

    def store(self, st, loc, v):
        self.kill(st, loc)
        # a store into part of an object whose whole value is known elsewhere is fine:
        # lookups prefer the longest known prefix
        if v[0] == 'rec':
            st.mem[loc] = v[1]
            for p, x in v[2]:
                st.mem[loc + p] = x
        else:
            st.mem[loc] = v

    def havoc_loc(self, st, loc, tag):
        self.kill(st, loc)
        st.mem[loc] = ('hv', tag, loc)

    def havoc_heap(self, st, tag, keep=None):
        dead = [l for l in st.mem if l[0][0] in ('*', 'glob') and not (keep and keep(l))]
        for l in dead:
            del st.mem[l]
        st.epoch = tag

    # ------------------------------------------------------------ facts
    def constraints(self, st, seed):
        """linear constraints connected with the atoms in seed"""
        cs = []
        pool = []
        for p, b in st.facts.items():
            if p[0] == 'le' and b:
                k, it = lin_parts(p[1])
                pool.append((k, dict(it)))
            elif p[0] == 'eq' and b:
                k, it = lin_parts(p[1])
                d = dict(it)
                pool.append((k, d))
                pool.append((-k, {a: -c for a, c in d.items()}))
        want = set(seed)
        done = [False] * len(pool)
        ch = True
        while ch:
            ch = False
            for i, (k, d) in enumerate(pool):
                if not done[i] and any(a in want for a in d):
                    done[i] = True
                    cs.append((k, d))
                    want.update(d)
                    ch = True
        for a in want:
            if a in self.unsigned or self.nonneg(a):
                cs.append((0, {a: -1}))
            if a[0] == 'has' or a[0] == 'bool':
                cs.append((0, {a: -1}))
                cs.append((-1, {a: 1}))
        return cs

    def nonneg(self, a):
        if a[0] == '&':
            return True
        if a[0] == 'fld' and a[2] in ('#size', '#cap'):
            return True
        if a[0] == 'init' and a[1][-1] in ('#size', '#cap'):
            return True
        if a[0] == 'app' and a[1] in ('size', 'remaining'):
            return True
        return False

    def entails_le(self, st, l):
        """facts imply l <= 0"""
        if l[0] == 'c':
            return l[1] <= 0
        k, it = lin_parts(l)
        d = dict(it)
        if k <= 0 and all((c < 0 and (a in self.unsigned or self.nonneg(a))) for a, c in it):
            return True
        cs = self.constraints(st, d.keys())
        # negation: l >= 1
        cs.append((1 - k, {a: -c for a, c in d.items()}))
        key = frozenset((k2, frozenset(d2.items())) for k2, d2 in cs)
        r = self.ent_cache.get(key)
        if r is None:
            r = self.ent_cache[key] = infeasible(cs)
        return r

    def truth(self, st, p):
        """True / False / None"""
        k = p[0]
        if k == 'c':
            return p[1] != 0
        if k == 'not':
            r = self.truth(st, p[1])
            return None if r is None else not r
        if k == 'ne':
            r = self.truth(st, ('eq', p[1]))
            return None if r is None else not r
        if k == 'le':
            if st.facts.get(p):
                return True
            if self.entails_le(st, p[1]):
                return True
            if self.entails_le(st, sub(ONE, p[1])):
                return False
            return None
        if k == 'eq':
            f = st.facts.get(p)
            if f is not None:
                return f
            l = p[1]
            nz = self.known_nonzero(l)
            if nz:
                return False
            if self.entails_le(st, l) and self.entails_le(st, scale(l, -1)):
                return True
            if self.entails_le(st, add(l, ONE)) or self.entails_le(st, sub(ONE, l)):
                return False
            return None
        return st.facts.get(p)

    def known_nonzero(self, l):
        if l[0] == '&':
            return True
        if l[0] in ('s', 'closure', 'task', 'fn'):
            return True
        k, it = lin_parts(l)
        if len(it) == 1 and it[0][0][0] == '&' and abs(it[0][1]) == 1:
            return True      # address + constant
        if k == 0 and len(it) == 2 and it[0][1] + it[1][1] == 0 and abs(it[0][1]) == 1:
            a, b = it[0][0], it[1][0]
            if a[0] == '&' == b[0] and len(a) == len(b) == 2 and a[1][0] == 'glob' == b[1][0] and a[1] != b[1]:
                return True  # distinct globals
        return False

    def assume(self, st, p, val=True):
        """refine st by p == val; None if infeasible"""
        if not val:
            p = neg(p)
        t = self.truth(st, p)
        if t is True:
            return st
        if t is False:
            return None
        st = st.copy()
        if p[0] in ('le', 'eq'):
            st.facts = {**st.facts, p: True}
        elif p[0] == 'ne':
            st.facts = {**st.facts, ('eq', p[1]): False}
            # x != 0 with x >= 0 known
            l = p[1]
            if self.entails_le(st, scale(l, -1)):
                st.facts[mk_le(sub(ONE, l))] = True
            elif self.entails_le(st, l):
                st.facts[mk_le(add(l, ONE))] = True
        elif p[0] == 'not':
            st.facts = {**st.facts, p[1]: False}
        else:
            st.facts = {**st.facts, p: True}
        return st

    # ------------------------------------------------------------ symbols
    def sym(self, st, kind, ins, t=None, info=None):
        fr = st.top
        s = ('sym', kind, fr.ctx, ins.idx)
        self.kinds.setdefault((fr.ctx, ins.idx), set()).add(kind)
        if fr.inloop or fr.fn.inloop[ins.idx]:
            self.retire(st, s)
        if info is not None:
            self.info[s] = info
        if is_unsigned(t):
            self.unsigned.add(s)
        return s

    def retire(self, st, s):
        """a new instance of s is about to be created: rename what is left of the old one"""
        hit = [l for l, v in st.mem.items() if mentions(v, s) or mentions(l, s)]
        hitT = [k for k, v in st.tmps.items() if mentions(v, s)]
        hitF = [p for p in st.facts if mentions(p, s)]
        hitA = mentions(st.auto, s)
        hitC = any(mentions(f.this, s) or (f.closure is not None and mentions(f.closure, s)) for f in st.frames)
        if not (hit or hitT or hitF or hitA or hitC):
            return
        k = self.oldids.setdefault(s, len(self.oldids))
        o = ('old', k)
        if s in self.info:
            self.info[o] = self.info[s]
        if s in self.unsigned:
            self.unsigned.add(o)
        m2 = {o: ('old2', k), s: o}
        if hit:
            nm = {}
            for l, v in st.mem.items():
                if mentions(v, s):
                    v = subst(v, m2)
                if mentions(l, s):
                    l = subst(l, m2)
                nm[l] = v
            st.mem = nm
        if hitA:
            st.auto = subst(st.auto, m2)
        if hitC:
            fs = []
            for f in st.frames:
                if mentions(f.this, s) or (f.closure is not None and mentions(f.closure, s)):
                    f = Frame(f.fn, f.ctx, subst(f.this, m2), subst(f.closure, m2) if f.closure is not None else None, f.retpc, f.dst, f.mode,
                              f.into, f.eh, f.inloop, f.data)
                fs.append(f)
            st.frames = tuple(fs)
        for k in hitT:
            st.tmps[k] = subst(st.tmps[k], m2)
        if hitF:
            f2 = {}
            for p, b in st.facts.items():
                if mentions(p, o):
                    continue
                if mentions(p, s):
                    p2 = subst(p, m2)
                    if p2[0] == 'ne':
                        p2, b = ('eq', p2[1]), not b
                    if p2[0] == 'c':
                        continue
                    f2[p2] = b
                else:
                    f2[p] = b
            st.facts = f2

    # ------------------------------------------------------------ running
    def entry(self, f, this=None, args=None, closure=None, auto=None, setup=None, facts=None):
        """analyse function f from its entry"""
        fn = ir.lower(f)
        st = State()
        st.mem, st.facts, st.tmps = {}, {}, {}
        st.auto = self.rule.init_auto if auto is None else auto
        st.epoch = 0
        st.exc = None
        st.path = None
        ctx = self.ctx(0, 0, fn.id)
        if this is None:
            this = ('sym', 'this', ctx, 0)
        st.frames = (Frame(fn, ctx, this, closure, None, None, 'entry', None, None, False),)
        st.pc = 0
        for i, p in enumerate(fn.params):
            v = args[i] if args is not None and i < len(args) and args[i] is not None else ('p', p['n'] or '#%d' % i)
            if is_unsigned(p['t']) and v[0] == 'p':
                self.unsigned.add(v)
            self.store(st, (('v', ctx, p['id']),), v)
        if facts:
            st.facts = dict(facts)
        if setup:
            setup(self, st)
        self.rule.on_enter(self, st, fn)
        self.run(st)

    def run(self, st0):
        self.table = {}
        onhead = getattr(self.rule, 'on_head', None)
        work = deque([st0])
        while work:
            st = work.pop()
            while st is not None:
                self.steps += 1
                if self.steps > self.budget:
                    self.truncated = True
                    raise CheckError('analysis budget exceeded in %s' % st0.frames[0].fn.q)
                fr = st.frames[-1]
                ins = fr.fn.instrs[st.pc]
                if ins.npred > 1:
                    if onhead is not None and st.pc in fr.fn.heads:
                        onhead(self, st, ins)
                    st = self.merge(st, ins)
                    if st is None:
                        break
                nxt = self.step(st, ins)
                if not nxt:
                    st = None
                elif len(nxt) == 1:
                    st = nxt[0]
                else:
                    st = nxt[0]
                    for o in nxt[1:]:
                        work.append(o)

    # ------------------------------------------------------------ merging
    def fkey(self, st):
        if self.rule.numeric:
            return frozenset(st.facts.items())
        return frozenset((p, b) for p, b in st.facts.items() if p[0] != 'le' and not self.weak(p))

    def weak(self, p):
        """facts that do not keep states apart"""
        return False

    def gc(self, st):
        fr = st.top
        live = fr.fn.live[st.pc]
        c = fr.ctx
        dead = [k for k in st.tmps if k[0] == c and k[1] not in live]
        for k in dead:
            del st.tmps[k]
        # locals that are not mentioned any more
        vl = {}
        pc = st.pc
        for f in reversed(st.frames):
            vl[f.ctx] = f.fn.vlive[pc] if pc is not None else ()
            pc = f.retpc
        cand = {}
        for l in st.mem:
            r = l[0]
            if r[0] == 'v' and r[1] in vl and r[2] not in vl[r[1]] and not (isinstance(r[2], str) and r[2].startswith('cap:')):
                cand.setdefault(r, []).append(l)
        if cand:
            held = set()
            for l, v in st.mem.items():
                if l[0] not in cand:
                    addrs_in(v, held)
            for v in st.tmps.values():
                addrs_in(v, held)
            for f in st.frames:
                for v in (f.this, f.closure):
                    if v is not None:
                        addrs_in(v, held)
            todo = [r for r in held if r in cand]
            while todo:
                r = todo.pop()
                if r not in cand:
                    continue
                h2 = set()
                for l in cand.pop(r):
                    addrs_in(st.mem[l], h2)
                todo += [x for x in h2 if x in cand]
            for r, ls in cand.items():
                for l in ls:
                    del st.mem[l]
        ats = set()
        heap = {}
        for l, v in st.mem.items():
            r = l[0]
            if r[0] == '*' and r[1][0] in ('sym', 'old', 'old2', 'phi', 'app', 'fld'):
                heap.setdefault(r[1], []).append((l, v))
            else:
                atoms_all(v, ats)
        for v in st.tmps.values():
            atoms_all(v, ats)
        atoms_all(st.auto, ats)
        for f in st.frames:
            atoms_all(f.this, ats)
            if f.closure is not None:
                atoms_all(f.closure, ats)
        ch = True
        while heap and ch:
            ch = False
            for r in list(heap):
                if r in ats or not self.dead_root(r, ats):
                    for l, v in heap.pop(r):
                        atoms_all(v, ats)
                    ch = True
        for r, ls in heap.items():
            for l, v in ls:
                del st.mem[l]
        if not st.facts:
            return
        self.cur_epoch = st.epoch
        self.vroots = {('v', c, x) for c, xs in vl.items() for x in xs}
        self.flives = []
        pc = st.pc
        for f in reversed(st.frames):
            if pc is not None:
                self.flives.append(flive(self.prog, f.fn)[pc])
            pc = f.retpc
        # keep facts that only talk about live atoms; dead symbols are projected out of the linear part
        keep = {}
        gone, dead = [], set()
        for p, b in st.facts.items():
            ok = True
            for a in atoms(p):
                if not self.alive(a, ats):
                    ok = False
                    dead.add(a)
            if ok:
                keep[p] = b
            else:
                gone.append((p, b))
        if gone:
            if self.rule.numeric:
                self.project_out(keep, gone, dead)
            st.facts = keep

    def project_out(self, keep, gone, dead):
        eqs, les = [], []
        for p, b in gone:
            if not b or p[0] not in ('eq', 'le'):
                continue
            k, it = lin_parts(p[1])
            (eqs if p[0] == 'eq' else les).append((k, dict(it)))
        for p, b in keep.items():
            if p[0] == 'eq' and b:
                k, it = lin_parts(p[1])
        dead = [a for a in dead if any(a in d for k, d in eqs) or any(a in d for k, d in les)]
        dead.sort(key=repr)
        for a in dead:
            piv = None
            for i, (k, d) in enumerate(eqs):
                if abs(d.get(a, 0)) == 1:
                    piv = eqs.pop(i)
                    break
            if piv is not None:
                k0, d0 = piv
                c0 = d0[a]

                def sb(kd):
                    k, d = kd
                    c = d.get(a, 0)
                    if not c:
                        return kd
                    m = -c * c0
                    n = dict(d)
                    for t, x in d0.items():
                        n[t] = n.get(t, 0) + m * x
                    return k + m * k0, {t: x for t, x in n.items() if x}
                eqs = [sb(x) for x in eqs]
                les = [sb(x) for x in les]
                if a in self.unsigned or self.nonneg(a):
                    # a >= 0 :  a = -(k0 + rest)/c0
                    les.append((k0 * c0, {t: x * c0 for t, x in d0.items() if t != a}))
                continue
            eqs = [x for x in eqs if a not in x[1]]
            pos = [x for x in les if x[1].get(a, 0) > 0]
            ngs = [x for x in les if x[1].get(a, 0) < 0]
            les = [x for x in les if a not in x[1]]
            if a in self.unsigned or self.nonneg(a):
                ngs = ngs + [(0, {a: -1})]
            if len(pos) * len(ngs) <= 24:
                for k1, d1 in pos:
                    for k2, d2 in ngs:
                        m1, m2 = -d2[a], d1[a]
                        n = {}
                        for t, c in d1.items():
                            n[t] = n.get(t, 0) + c * m1
                        for t, c in d2.items():
                            n[t] = n.get(t, 0) + c * m2
                        n = {t: c for t, c in n.items() if c}
                        if n and len(n) <= 5:
                            les.append((k1 * m1 + k2 * m2, n))
        dset = set(dead)
        for lst, mk in ((eqs, mk_eq), (les, mk_le)):
            for k, d in lst:
                if not d or any(a in dset for a in d):
                    continue
                q = mk(mk_lin(k, d.items()))
                if q[0] == 'c' or q in keep:
                    continue
                if q[0] == 'le' and all(c < 0 and (a in self.unsigned or self.nonneg(a)) for a, c in d.items()) and k <= 0:
                    continue
                keep[q] = True

    def dead_root(self, r, ats):
        """nothing live can reach the object r points to"""
        if r[0] in ('app', 'fld'):
            for x in subterms(r):
                if x and x[0] in ('sym', 'old', 'old2', 'phi') and x not in ats:
                    return True
            return False
        return True

    def alive(self, a, ats):
        if a in ats:
            return True
        if a[0] == 'p':
            return self.rule.numeric
        if a[0] == 'init':
            if len(a) == 2:
                return self.rule.numeric or a[1][0] in self.vroots
            if a[2] != self.cur_epoch:
                return False
            if self.rule.numeric:
                return True
            for n in reversed(a[1]):
                if isinstance(n, str) and n[:1] != '#':
                    return any(n in s for s in self.flives)
            return True
        if a[0] in ('fld', 'has', 'bool', 'app', '*', '&', 'trunc', 'int'):
            return any(self.alive(x, ats) for x in a[1:] if isinstance(x, tuple) and x) and \
                all(self.alive(x, ats) for x in a[1:] if isinstance(x, tuple) and x and x[0] in ('sym', 'phi', 'old', 'fld', 'hv', 'old2'))
        return False

    def merge(self, st, ins):
        st = st.copy()
        for l in getattr(self.rule, 'nat', ()):
            v = st.mem.get(l)
            if v is not None and v[0] != 'c' and self.truth(st, mk_eq(v)) is True:
                self.store(st, l, C(0))
        self.gc(st)
        fr = st.top
        key0 = (fr.ctx, st.pc)
        head = st.pc in fr.fn.heads
        tab = self.table.setdefault(key0, {})
        k = (st.auto, st.exc, 0) + ((self.fkey(st),) if not head else (self.headkey(st, fr),))
        if self.rule.sep_null and not head:
            # a null pointer stays apart from an address
            k += (frozenset((l, v[0]) for l, v in st.mem.items() if l[0][0] == 'v' and len(l) == 1 and (v == C(0) or v[0] == '&' or v[:2] == ('app', '&'))),)
        old = tab.get(k)
        if old is None and len(tab) >= (self.rule.max_head if head else self.rule.max_states):
            # too many: merge into a state with the same typestate
            for kk, o in tab.items():
                if kk[0] == st.auto and kk[1] == st.exc:
                    k, old = kk, o
                    break
        if old is None:
            tab[k] = st
            return st.copy()
        j, changed = self.join(old, st, key0)
        if not changed:
            return None
        self.stats['merged'] += 1
        tab[k] = j
        return j.copy()

    def headkey(self, st, fr):
        """at loop heads only facts about symbols that are not produced inside the loop separate states"""
        lo = st.pc
        hi = max((e for h, e in fr.fn.loops if h == lo), default=lo)
        ctx = fr.ctx
        ks = []
        for p, b in st.facts.items():
            inner = False
            for a in subterms(p):
                if a[:1] == ('sym',) and len(a) == 4:
                    c, pc = a[2], a[3]
                    while c and c != ctx and isinstance(c, int):
                        inf = self.ctxinfo[c]
                        if inf is None:
                            break
                        pc, c = inf[1], inf[0]
                    if c == ctx and isinstance(pc, int) and lo <= pc <= hi:
                        inner = True
                        break
                elif a[:1] in (('phi',), ('old',), ('old2',), ('hv',)):
                    inner = True
                    break
            if not inner and p[0] != 'le' and self.rule.head_fact(p, b):
                ks.append((p, b))
        return frozenset(ks)

    @staticmethod
    def join_index(ra, rb, at):
        if not (isinstance(ra, tuple) and isinstance(rb, tuple) and ra[:1] == ('&',) and rb[:1] == ('&',) and len(ra) == len(rb)):
            return None
        out, ph = [], []
        for n, (x, y) in enumerate(zip(ra, rb)):
            if x != y:
                if not (isinstance(x, tuple) and isinstance(y, tuple) and x[:1] == ('[]',) and y[:1] == ('[]',)):
                    return None
                s = ('phi', at[0], at[1], (at[2], 'ix', n))
                ph.append((s, x[1], y[1]))
                x = ('[]', s)
            out.append(x)
        return tuple(out), ph

    def join(self, a, b, at):
        """a: stored state, b: incoming; returns (joined, changed)"""
        j = a.copy()
        changed = False
        phis = []
        if a.epoch != b.epoch:
            e = ('j',) + at
            if a.epoch != e:
                j.epoch = e
                changed = True
        locs = set(a.mem) | set(b.mem)
        newmem = {}
        for l in locs:
            va, vb = a.mem.get(l), b.mem.get(l)
            if va is None or vb is None:
                ra = self.load_raw(a, l)
                rb = self.load_raw(b, l)
            else:
                ra, rb = va, vb
            if ra == rb and not (l in getattr(self.rule, 'nat', ()) and ra[0] == 'phi' and ra[1] == at[0] and ra[2] > at[1]):
                if va is not None or vb is not None:
                    newmem[l] = ra
                if va is None:
                    # representation only
                    pass
                continue
            g = self.join_index(ra, rb, (at[0], at[1], l))
            if g is not None:
                # the same element but for its index
                newmem[l] = g[0]
                phis.extend(g[1])
                changed = changed or g[0] != ra
                continue
            if ra[0] in ('c', 'lin', 'sym') and self.rule.numeric and (ra[0] == 'c' or self.isnum(ra)) and self.isnum(rb) and rb[0] != '&' and self.truth(b, mk_eq(sub(rb, ra))) is True:
                newmem[l] = ra
                continue
            ph = ('phi', at[0], at[1], l)
            if ra == ph:
                newmem[l] = ph
                phis.append((ph, ph, rb))
                continue
            phis.append((ph, ra, rb))
            newmem[l] = ph
            if ra in self.unsigned_ext(a) and rb in self.unsigned_ext(b) or l in getattr(self.rule, 'nat', ()):
                self.unsigned.add(ph)
            elif self.isnum(ra) and self.isnum(rb) and self.entails_le(a, scale(ra, -1)) and self.entails_le(b, scale(rb, -1)):
                self.unsigned.add(ph)
            changed = True
        j.mem = newmem
        for k in set(a.tmps) | set(b.tmps):
            va, vb = a.tmps.get(k), b.tmps.get(k)
            if va is None or vb is None:
                if k in j.tmps and (va is None or vb is None):
                    if va is not None:
                        del j.tmps[k]
                        changed = True
                continue
            if va != vb:
                ph = ('phi', at[0], at[1], ('t',) + k)
                if va != ph:
                    changed = True
                    phis.append((ph, va, vb))
                j.tmps[k] = ph
        # facts
        nf = {}
        # view of each side in terms of the phi symbols: phi == value
        fresh = [(p, x, y) for p, x, y in phis]
        fa = dict(a.facts)
        fb = dict(b.facts)
        # facts of a about an earlier instance of a phi keep their meaning under another name
        rena = {p: ('prev0', p) for p, x, y in fresh if p != x}
        if rena and (any(mentions(q, p) for q in fa for p in rena) or any(self.isnum(x) and mentions(x, p) for _, x, _ in fresh for p in rena)):
            for p in rena:
                if p in self.unsigned:
                    self.unsigned.add(('prev0', p))
            fx = {}
            for q, v in fa.items():
                q2 = subst(q, rena)
                if q2[0] == 'ne':
                    q2, v = ('eq', q2[1]), not v
                if q2[0] != 'c':
                    fx[q2] = v
            fa = fx
        else:
            rena = {}
        A2, B2 = a.copy(), b.copy()
        phset = {p for p, x, y in fresh}
        # an incoming value may mention the phi of the previous visit: rename in b
        ren = {p: ('prev', p) for p in phset}
        for p in phset:
            if p in self.unsigned:
                self.unsigned.add(('prev', p))
        fbr = {}
        for q, v in fb.items():
            q2 = subst(q, ren)
            if q2[0] == 'ne':
                q2, v = ('eq', q2[1]), not v
            if q2[0] != 'c':
                fbr[q2] = v
        for p, x, y in fresh:
            if self.isnum(y):
                e = mk_eq(sub(p, subst(y, ren)))
                if e[0] == 'eq':
                    fbr[e] = True
            if p != x and self.isnum(x):
                e = mk_eq(sub(p, subst(x, rena)))
                if e[0] == 'eq':
                    fa[e] = True
        A2.facts, B2.facts = fa, fbr
        cand = {}
        for q, v in a.facts.items():
            cand[q] = v
        first = [(p, x, y) for p, x, y in fresh if p != x and self.isnum(x) and self.isnum(y)]
        if first and (self.rule.numeric or at[1] in j.top.fn.heads):
            olds = [(p, x, y) for p, x, y in fresh if p == x and self.isnum(y)]
            for q in self.templates(first, j, a, b, olds):
                cand.setdefault(q, True)
        hints = self.rule.hints
        if hints:
            # relations between the counters of the rule and the variables of the code
            var = sorted({v for l, v in j.mem.items() if l[0][0] == 'v' and len(l) == 1 and v[0] in ('phi', 'lin') and self.isnum(v)}, key=repr)
            for g in self.rule.nat:
                gv = j.mem.get(g)
                if gv is None or not self.isnum(gv):
                    continue
                for v in var:
                    for h in hints:
                        for off in (0, 1, -1):
                            q = mk_eq(sub(add(add(gv, h), C(off)), v))
                            if q[0] == 'eq':
                                cand.setdefault(q, True)
        for q, v in cand.items():
            if q in nf:
                continue
            if not v:
                if q in a.facts and fbr.get(q) is False:
                    nf[q] = False
                elif q in a.facts and self.truth(B2, q) is False:
                    nf[q] = False
                continue
            if (fbr.get(q) is True or self.truth(B2, q) is True):
                if q in a.facts and not any(mentions(q, p) for p, x, y in first):
                    nf[q] = True
                elif self.truth(A2, q) is True:
                    nf[q] = True
        if nf != a.facts:
            if set(nf) != set(a.facts):
                changed = True
            else:
                changed = changed or any(nf[q] != a.facts[q] for q in nf)
        j.facts = nf
        j.path = b.path if changed else a.path
        return j, changed

    def load_raw(self, st, loc):
        v = st.mem.get(loc)
        if v is not None:
            return v
        n = len(loc) - 1
        while n > 0:
            b = st.mem.get(loc[:n])
            if b is not None:
                v = b
                for f in loc[n:]:
                    v = self.project(v, f)
                return v
            n -= 1
        return ('init', loc) if loc[0][0] == 'v' else ('init', loc, st.epoch)

    def unsigned_ext(self, st):
        return self.unsigned

    def isnum(self, t):
        return t[0] in ('c', 'lin', 'sym', 'phi', 'p', 'init', 'fld', 'app', 'old', 'old2', '&', 'has', 'trunc')

    def templates(self, first, j, a, b, olds=()):
        """candidate relations for new phi symbols"""
        out = []
        vals = set()
        for v in list(j.mem.values()):
            if v[0] in ('p', 'init', 'sym', 'phi', 'fld', 'app', 'lin', 'old') and self.numeric_like(v):
                vals.add(v)
            if v[0] == 'span':
                vals.add(v[1]); vals.add(v[2])
        for q in list(a.facts) + list(b.facts):
            if q[0] in ('le', 'eq'):
                for at, c in lin_parts(q[1])[1]:
                    vals.add(at)
        ps = [p for p, x, y in first]
        for i, (p, x, y) in enumerate(first):
            if p not in self.unsigned:
                out.append(mk_le(scale(p, -1)))
            for v in sorted(vals, key=repr)[:24]:
                if v == p:
                    continue
                out.append(mk_le(sub(p, v)))
                out.append(mk_le(sub(v, p)))
            for (p2, x2, y2) in first[i + 1:]:
                for sgn in (1, -1):
                    s = add(x, scale(x2, sgn))
                    out.append(mk_eq(sub(add(p, scale(p2, sgn)), s)))
            for (p2, x2, y2) in olds:
                out.append(mk_eq(sub(sub(p, p2), sub(y, y2))))
        return [q for q in out if q[0] in ('le', 'eq')]

    def numeric_like(self, v):
        if v in self.unsigned or v[0] in ('lin', 'c'):
            return True
        return v[0] in ('phi', 'fld', 'app') and v in self.unsigned

    # ------------------------------------------------------------ stepping
    def step(self, st, ins):
        m = getattr(self, 'i_' + ins.op, None)
        if m is None:
            raise CheckError('unknown instruction ' + ins.op)
        fr = st.frames[-1]
        ks = self.kinds.get((fr.ctx, ins.idx))
        if ks and (fr.inloop or fr.fn.inloop[ins.idx]):
            # values of an earlier visit become old before the operands are read
            for k in ks:
                self.retire(st, ('sym', k, fr.ctx, ins.idx))
        self.stats['instrs'].add((st.top.fn.id, ins.idx))
        return m(st, ins)

    def next(self, st, ins):
        if not ins.succ:
            return []
        st.pc = ins.succ[0]
        return [st]

    def t(self, st, i):
        if i is None:
            return ('c', 0)
        v = st.tmps.get((st.frames[-1].ctx, i))
        if v is None:
            return ('unk', st.frames[-1].ctx, i)
        return v

    def setd(self, st, ins, v):
        if ins.dst is not None:
            st.tmps[(st.frames[-1].ctx, ins.dst)] = v

    def fin(self, st, ins, v):
        self.setd(st, ins, v)
        return self.next(st, ins)

    def i_const(self, st, ins):
        t = ins.x.get('t')
        return self.fin(st, ins, C(ins.x['v']))

    def i_constf(self, st, ins):
        return self.fin(st, ins, ('cf', ins.x['v']))

    def i_str(self, st, ins):
        return self.fin(st, ins, ('s', ins.x['v']))

    def i_unk(self, st, ins):
        return self.fin(st, ins, self.sym(st, 'unk', ins, ins.x.get('t')))

    def i_fnref(self, st, ins):
        return self.fin(st, ins, ('fn', ins.x['fn']['id'], ins.x['fn']['q']))

    def i_this(self, st, ins):
        return self.fin(st, ins, st.top.this)

    def i_addr_var(self, st, ins):
        return self.fin(st, ins, ('&', ('v', st.top.ctx, ins.x['id'])))

    def i_addr_cap(self, st, ins):
        fr = st.top
        cl = fr.closure
        n = ins.x['n']
        if cl is not None and cl[0] == 'closure':
            for (kind, name, vid), v in zip(cl[2], cl[3]):
                if name == n:
                    if kind == 'ref':
                        return self.fin(st, ins, v)
                    # by value: content lives in the closure object
                    loc = ('cap', fr.ctx, n)
                    a = ('&', ('v', fr.ctx, 'cap:' + n))
                    if a[1:] not in st.mem:
                        self.store(st, a[1:], v)
                    return self.fin(st, ins, a)
        a = ('&', ('*', ('p', 'cap:' + n)))
        return self.fin(st, ins, a)

    def i_addr_glob(self, st, ins):
        return self.fin(st, ins, ('&', ('glob', ins.x['q'])))

    def i_slot(self, st, ins):
        return self.fin(st, ins, ('&', ('v', st.top.ctx, ('slot', ins.x['n']))))

    i_slotref = i_slot

    def i_decl(self, st, ins):
        a = self.t(st, ins.a[0])
        self.kill(st, a[1:])
        return self.next(st, ins)

    def i_kill(self, st, ins):
        c = st.top.ctx
        vs = set(ins.x['vars'])
        lo, hi = ins.x['slots']
        dead = []
        for l in st.mem:
            r = l[0]
            if r[0] == 'v' and r[1] == c:
                if r[2] in vs or (isinstance(r[2], tuple) and r[2][0] == 'slot' and lo <= r[2][1] <= hi):
                    dead.append(l)
        for l in dead:
            del st.mem[l]
        return self.next(st, ins)

    def i_nop(self, st, ins):
        return self.next(st, ins)

    i_sb = i_head = i_jump = i_rethrow = i_nop

    def i_noreturn(self, st, ins):
        return []

    def i_excobj(self, st, ins):
        return self.fin(st, ins, ('&', ('*', ('sym', 'exc', st.top.ctx, ins.idx))))

    def i_catch(self, st, ins):
        st.exc = None
        self.rule.on_catch(self, st, ins)
        return self.next(st, ins)

    def i_choose(self, st, ins):
        types = ins.x['types']
        et = st.exc[1] if st.exc else None
        out = []
        n = len(types)
        for i, t in enumerate(types):
            m = self.exc_match(et, t)
            if m is False:
                continue
            s = st.copy()
            s.pc = ins.succ[i]
            out.append(s)
            if m is True:
                return out
        if len(ins.succ) > n:
            s = st.copy()
            s.pc = ins.succ[n]
            out.append(s)
        return out

    def exc_match(self, et, ct):
        if ct == '...':
            return True
        ct = ct.replace('const ', '').replace('&', '').strip()
        if et == '?':
            return None
        if et is None:
            return True if ct == 'std::exception' else None
        et = et.replace('const ', '').replace('&', '').strip()
        if et == ct:
            return True
        if ct == 'std::exception':
            return et.startswith('std::')
        if et.startswith('std::') and ct.startswith('std::'):
            base = {'std::invalid_argument': ['std::logic_error'], 'std::out_of_range': ['std::logic_error'],
                    'std::system_error': ['std::runtime_error']}
            return ct in base.get(et, [])
        return False

    def raise_exc(self, st, ins, exc):
        """unwind to the landing pad of ins"""
        st.exc = exc
        if ins.eh is None:
            return self.do_unwind(st)
        st.pc = ins.eh
        return [st]

    def i_throw(self, st, ins):
        self.rule.on_throw(self, st, ins)
        return self.raise_exc(st, ins, ('exc', ins.x.get('t') if ins.a else '?'))

    def i_unwind(self, st, ins):
        return self.do_unwind(st)

    def do_unwind(self, st):
        fr = st.top
        if fr.mode == 'entry':
            self.rule.on_exit(self, st, None, 'exc', None)
            return []
        # noexcept functions terminate
        if fr.fn.f.get('nx') and not fr.fn.coro:
            return []
        self.pop(st)
        if fr.eh is None:
            return self.do_unwind(st)
        st.pc = fr.eh
        return [st]

    def pop(self, st):
        fr = st.frames[-1]
        c = fr.ctx
        dead = [l for l in st.mem if l[0][0] == 'v' and l[0][1] == c]
        for l in dead:
            del st.mem[l]
        dead = [k for k in st.tmps if k[0] == c]
        for k in dead:
            del st.tmps[k]
        st.frames = st.frames[:-1]

    def field_addr(self, b, n):
        if b[0] == '&':
            return b + (n,)
        return ('&', ('*', b), n)

    def i_field(self, st, ins):
        return self.fin(st, ins, self.field_addr(self.t(st, ins.a[0]), ins.x['n']))

    def i_idx(self, st, ins):
        b, i = self.t(st, ins.a[0]), self.t(st, ins.a[1])
        h = getattr(self.rule, 'on_idx', None)
        if h:
            h(self, st, ins, b, i)
        if b[0] == '&' and b[1][0] != '*':
            a = b + (('[]', i),)
        else:
            a = add(self.ptr(b), i)
            if a[0] != '&':
                a = ('&', ('*', a))
        return self.fin(st, ins, a)

    def ptr(self, a):
        """a numeric view of an address"""
        if a[0] == '&' and len(a) == 2 and a[1][0] == '*':
            return a[1][1]
        return a

    def i_load(self, st, ins):
        a = self.t(st, ins.a[0])
        loc = self.loc_of(a)
        v = self.load(st, loc, ins.x.get('t'))
        r = self.rule.on_load(self, st, ins, loc, v)
        if r is not None:
            v = r
        return self.fin(st, ins, v)

    def i_store(self, st, ins):
        a, v = self.t(st, ins.a[0]), self.t(st, ins.a[1])
        loc = self.loc_of(a)
        if not ins.x.get('ref') or True:
            r = self.rule.on_store(self, st, ins, loc, v)
            if r is not None:
                v = r
        self.store(st, loc, v)
        return self.next(st, ins)

    def i_zeroinit(self, st, ins):
        a = self.t(st, ins.a[0])
        self.store(st, self.loc_of(a), ('zero',))
        return self.next(st, ins)

    def i_aggr(self, st, ins):
        a = self.t(st, ins.a[0])
        self.store(st, self.loc_of(a), ('zero',))
        return self.next(st, ins)

    def i_un(self, st, ins):
        v = self.t(st, ins.a[0])
        o = ins.x['o']
        if o == '!':
            v = neg(as_pred(v))
        elif o == '-':
            v = scale(v, -1) if self.numok(v) else ('app', 'neg', v)
        elif o == '+':
            pass
        elif o == '~' and v[0] == 'c':
            v = C(~v[1])
        else:
            v = ('app', o, v)
        return self.fin(st, ins, v)

    def numok(self, v):
        return v[0] not in ('cf', 's', 'rec', 'le', 'eq', 'ne', 'not', 'ok', 'err', 'fcmp', 'span')

    def boolnum(self, v):
        """predicates used as numbers"""
        if v[0] in ('le', 'eq', 'ne', 'not', 'fcmp'):
            return ('bool', v)
        return v

    def i_bin(self, st, ins):
        a, b = self.t(st, ins.a[0]), self.t(st, ins.a[1])
        o = ins.x['o']
        r = self.rule.on_bin(self, st, ins, o, a, b)
        if r is None:
            r = self.binop(st, ins, o, a, b, ins.x.get('t'), ins.x.get('xt'))
        return self.fin(st, ins, r)

    def binop(self, st, ins, o, a, b, t=None, xt=None):
        if o in ('==', '!=', '<', '<=', '>', '>='):
            if a[0] in ('le', 'eq', 'ne', 'not', 'fcmp', 'bool') and b[0] == 'c' and o in ('==', '!='):
                p = a
                if (b[1] == 0) == (o == '=='):
                    p = neg(p)
                return p
            a, b = self.boolnum(a), self.boolnum(b)
            if not (self.numok(a) and self.numok(b)) or (numtype(xt) is None and xt and ('double' in xt or 'float' in xt)):
                if o == '!=':
                    return ('not', ('fcmp', '==', a, b))
                if o in ('>', '>='):
                    return ('not', ('fcmp', {'>': '<=', '>=': '<'}[o], a, b))
                return ('fcmp', o, a, b)
            a, b = self.ptr(a), self.ptr(b)
            if o == '==':
                return mk_eq(sub(a, b))
            if o == '!=':
                return neg(mk_eq(sub(a, b)))
            if o == '<':
                return mk_le(add(sub(a, b), ONE))
            if o == '<=':
                return mk_le(sub(a, b))
            if o == '>':
                return mk_le(add(sub(b, a), ONE))
            return mk_le(sub(b, a))
        fl = t and ('double' in t or 'float' in t)
        a, b = self.boolnum(a), self.boolnum(b)
        if o in ('+', '-') and self.numok(a) and self.numok(b) and not fl:
            a, b = self.ptr(a), self.ptr(b)
            return add(a, b, 1 if o == '+' else -1)
        if o == '*' and not fl:
            if a[0] == 'c' and self.numok(b):
                return scale(b, a[1])
            if b[0] == 'c' and self.numok(a):
                return scale(a, b[1])
        if a[0] == 'c' and b[0] == 'c' and not fl:
            x, y = a[1], b[1]
            try:
                if o == '&':
                    return C(x & y)
                if o == '|':
                    return C(x | y)
                if o == '^':
                    return C(x ^ y)
                if o == '<<' and 0 <= y < 64:
                    return C(x << y)
                if o == '>>' and 0 <= y < 64:
                    return C(x >> y)
                if o == '/' and y:
                    return C(int(x / y) if (x < 0) != (y < 0) else abs(x) // abs(y))
                if o == '%' and y:
                    return C(abs(x) % abs(y) * (1 if x >= 0 else -1))
            except Exception:
                pass
        if o in ('&', '|', '^', '*') and repr(a) > repr(b):
            a, b = b, a
        r = ('app', o, a, b)
        if is_unsigned(t):
            self.unsigned.add(r)
        return r

    def i_cast(self, st, ins):
        v = self.t(st, ins.a[0])
        r = self.rule.on_cast(self, st, ins, v)
        if r is not None:
            return self.fin(st, ins, r)
        return self.fin(st, ins, self.cast(st, ins, v))

    def cast(self, st, ins, v):
        ck, t, ft = ins.x.get('ck'), ins.x.get('t'), ins.x.get('ft')
        if ck in ('IntegralToBoolean', 'PointerToBoolean'):
            return as_pred(self.ptr(v) if v[0] == '&' and len(v) == 2 and v[1][0] == '*' else v)
        if ck == 'IntegralCast':
            nt, nf = numtype(t), numtype(ft)
            if v[0] == 'c' and nt:
                b = BITS[nt]
                x = v[1] & ((1 << b) - 1)
                if not is_unsigned(nt) and x >> (b - 1):
                    x -= 1 << b
                return C(x)
            if nt and nf and self.rule.strict:
                if not self.fits(st, v, nt, nf):
                    r = ('trunc', nt, v)
                    if is_unsigned(nt):
                        self.unsigned.add(r)
                    return r
            return v
        if ck in ('FloatingToIntegral',):
            r = ('app', 'f2i', v)
            if is_unsigned(t):
                self.unsigned.add(r)
            return r
        if ck in ('IntegralToFloating', 'FloatingCast'):
            return v if v[0] == 'cf' else ('app', 'i2f', v)
        if ck in ('BitCast', 'LValueBitCast', 'IntegralToPointer', 'PointerToIntegral'):
            return v
        return v

    def fits(self, st, v, nt, nf):
        bt, bf = BITS[nt], BITS[nf]
        ut, uf = is_unsigned(nt), is_unsigned(nf)
        v = self.boolnum(v)
        if not self.numok(v):
            return True
        if ut and uf and bt >= bf:
            return True
        if not ut and not uf and bt >= bf:
            return True
        if not ut and uf and bt > bf:
            return True
        lo, hi = (0, (1 << bt) - 1) if ut else (-(1 << (bt - 1)), (1 << (bt - 1)) - 1)
        okl = (ut is False and uf and True) or self.entails_le(st, sub(C(lo), v)) or (not ut and not uf and bt >= bf)
        if uf:
            okl = okl or lo <= 0
        okh = (bt >= bf and (uf or not uf) and (ut or not uf)) or self.entails_le(st, sub(v, C(hi)))
        return okl and okh

    def i_br(self, st, ins):
        v = self.t(st, ins.a[0])
        p = as_pred(v)
        out = []
        tr = self.truth(st, p)
        for i, val in ((0, True), (1, False)):
            if tr is not None and tr != val:
                continue
            s = st.copy() if tr is not None else self.assume(st, p, val)
            if s is None:
                continue
            if s is st:
                s = st.copy()
            s.pc = ins.succ[i]
            self.step_path(s, ins)
            if self.rule.on_branch(self, s, ins, p, val) == 'drop':
                continue
            out.append(s)
        return out

    def step_path(self, st, ins):
        st.path = (st.path, (st.top.fn.file, ins.line))

    def i_more(self, st, ins):
        a = self.t(st, ins.a[0])
        s = self.sym(st, 'more', ins)
        self.info[s] = ('more', a)
        self.rule.on_more(self, st, ins, a, s)
        return self.fin(st, ins, s)

    def i_elem(self, st, ins):
        a = self.t(st, ins.a[0])
        s = self.sym(st, 'elem', ins)
        self.info[s] = ('elem', a)
        self.rule.on_elem(self, st, ins, a, s)
        return self.fin(st, ins, ('&', ('*', s)))

    def i_rangeof(self, st, ins):
        v = self.t(st, ins.a[0])
        if ins.x.get('it'):
            if v[0] == 'init' and v[1][-1] == '#data':
                v = ('&',) + v[1][:-1]
            elif v[0] == '&' and v[-1] in ('#data', ('[]', ZERO)):
                v = v[:-1]
            elif v[0] == 'app' and len(v) == 3 and v[1].endswith('begin'):
                v = v[2]
        return self.fin(st, ins, v)

    def i_rangeend(self, st, ins):
        return self.fin(st, ins, ('app', 'rangeend', self.t(st, ins.a[0])))

    def i_notend(self, st, ins):
        f, e = self.t(st, ins.a[0]), self.t(st, ins.a[1])
        p = mk_eq(sub(self.ptr(f), self.ptr(e))) if self.numok(self.ptr(f)) and self.numok(self.ptr(e)) else None
        if p is not None:
            s = self.assume(st, p, False)
            if s is None:
                return []
            st = s
        return self.fin(st, ins, f)

    def i_lambda(self, st, ins):
        vs = tuple(self.t(st, x) for x in ins.a)
        return self.fin(st, ins, ('closure', ins.x['fns'][0] if ins.x['fns'] else None, tuple(tuple(c) for c in ins.x['caps']), vs))

    def i_new(self, st, ins):
        if ins.a:      # placement
            v = self.t(st, ins.a[0])
            self.rule.on_new(self, st, ins, v)
            return self.fin(st, ins, v)
        s = self.sym(st, 'heap', ins)
        v = ('&', ('*', s))
        self.info[s] = ('new', ins.x['t'])
        self.rule.on_new(self, st, ins, v)
        return self.fin(st, ins, v)

    def i_delete(self, st, ins):
        self.rule.on_delete(self, st, ins, self.t(st, ins.a[0]))
        return self.next(st, ins)

    # ------------------------------------------------------------ calls
    def lookup(self, fnref):
        f = self.prog.functions.get(fnref['id'])
        if f is not None and 'body' in f:
            return f
        return None

    def do_inline(self, st, ins, f, this, args, mode, into=None, closure=None, data=None, retpc=None):
        fn = ir.lower(f)
        if len(st.frames) > MAXDEPTH or sum(1 for x in st.frames if x.fn.id == fn.id) > 1:
            return None
        if not self.rule.inline(self, st, fn):
            return None
        fr = st.top
        c = self.ctx(fr.ctx, ins.idx, fn.id)
        inl = fr.inloop or fr.fn.inloop[ins.idx]
        nf = Frame(fn, c, this, closure, (ins.succ[0] if ins.succ else None) if retpc is None else retpc, ins.dst, mode, into, ins.eh, inl, data)
        if inl:
            # locals of an earlier activation at this site
            pass
        st.frames = st.frames + (nf,)
        st.pc = 0
        for i, p in enumerate(fn.params):
            v = args[i] if i < len(args) else ('unk', c, p['id'])
            self.store(st, (('v', c, p['id']),), v)
            if is_unsigned(p['t']) and v[0] not in ('c', 'lin', 'rec', 'le', 'eq', 'ne', 'not'):
                self.unsigned.add(v)
        self.stats['functions'].add(fn.id)
        self.step_path(st, ins)
        self.rule.on_enter(self, st, fn)
        return [st]

    def i_call(self, st, ins):
        fnref = ins.x['fn']
        vals = [self.t(st, x) for x in ins.a]
        obj = None
        if ins.x['hasobj']:
            obj, args = vals[0], vals[1:]
        else:
            args = vals
        return self.call(st, ins, fnref, obj, args)

    def outcome(self, rs, ins):
        if isinstance(rs, tuple) and rs[0] == 'states':
            return rs[1]
        out = []
        for s, v in rs:
            if v is not None:
                self.setd(s, ins, v)
            out += self.next(s, ins)
        return out

    def with_throw(self, st, ins, fnref, res):
        if self.rule.may_throw(self, st, ins, fnref):
            s = st.copy()
            return res, s
        return res, None

    def call(self, st, ins, fnref, obj, args):
        self.stats['calls'] += 1
        extra = []
        q = qn(fnref['q'])
        if not fnref.get('nx') and self.rule.may_throw(self, st, ins, fnref):
            extra = self.raise_exc(st.copy(), ins, ('exc', None))
        r = self.rule.on_call(self, st, ins, fnref, obj, args)
        if r is not None:
            return self.outcome(r, ins) + extra
        # callable objects
        if obj is not None and q.endswith('operator()'):
            cl = self.load(st, self.loc_of(obj))
            if cl[0] == 'closure':
                return self.call_closure(st, ins, cl, args, fnref) + extra
        m = models.find(q)
        if m is not None:
            r = m(self, st, ins, fnref, obj, args)
            if r is not None:
                return self.outcome(r, ins) + extra
        f = self.lookup(fnref)
        if f is not None and not getattr(self.rule, 'inline_pure', False) and is_pure(self.prog, f):
            r = ('app', q) + tuple(args)
            if is_unsigned(f['rt']):
                self.unsigned.add(r)
            return self.fin(st, ins, r) + extra
        if f is not None:
            if f.get('coro'):
                return self.call_coro(st, ins, f, obj, args) + extra
            s2 = st
            closure = None
            if f.get('lambda'):
                closure = self.load(st, self.loc_of(obj)) if obj is not None else None
                this = self.closure_this(closure)
            else:
                this = obj
            r = self.do_inline(s2, ins, f, this, args, 'call', closure=closure)
            if r is not None:
                return r + extra
        return self.outcome(self.opaque(st, ins, fnref, obj, args), ins) + extra

    def closure_this(self, cl):
        if cl and cl[0] == 'closure':
            for (k, n, vid), v in zip(cl[2], cl[3]):
                if k == 'this':
                    return v
        return ('sym', 'this', 0, 0)

    def call_closure(self, st, ins, cl, args, fnref=None):
        fid = fnref['id'] if fnref is not None and fnref['id'] in self.prog.functions else cl[1]
        f = self.prog.functions.get(fid) if fid else None
        if f is not None and 'body' in f:
            if f.get('coro'):
                return self.call_coro(st, ins, f, ('closureobj', cl), args)
            r = self.do_inline(st, ins, f, self.closure_this(cl), args, 'call', closure=cl)
            if r is not None:
                return r
        return self.outcome(self.opaque(st, ins, {'q': 'lambda', 'id': fid, 'rt': ins.x.get('t')}, None, args), ins)

    def call_coro(self, st, ins, f, obj, args):
        h = getattr(self.rule, 'on_coro_call', None)
        if h:
            r = h(self, st, ins, f, obj, args)
            if r is not None:
                return self.outcome(r, ins)
        s = self.sym(st, 'task', ins)
        # by-value arguments are captured at the call
        self.info[s] = ('task', f['id'], obj, tuple(args))
        return self.fin(st, ins, ('task', s, f['id'], obj, tuple(args)))

    def i_callx(self, st, ins):
        c = self.t(st, ins.a[0])
        args = [self.t(st, x) for x in ins.a[1:]]
        if ins.x.get('elem'):
            # an algorithm hands an element to its callable
            if c[0] == '&':
                c = self.load(st, self.loc_of(c))
            f = self.prog.functions.get(c[1]) if c[0] in ('closure', 'fn') else None
            if f is not None and f['params'] and '&' not in f['params'][0]['t']:
                args = [self.load(st, self.loc_of(args[0]))]
        if c[0] == 'closure':
            return self.call_closure(st, ins, c, args)
        if c[0] == 'fn':
            f = self.prog.functions.get(c[1])
            ref = {'id': c[1], 'q': c[2], 'rt': ins.x.get('t')}
            return self.call(st, ins, ref, None, args)
        ref = {'q': '<indirect>', 'id': None, 'rt': ins.x.get('t'), 'target': c}
        r = self.rule.on_call(self, st, ins, ref, c, args)
        if r is not None:
            return self.outcome(r, ins)
        return self.outcome(self.opaque(st, ins, ref, c, args), ins)

    PURE_FREE = {'strlen', 'isdigit', 'isspace', 'tolower', 'toupper'}

    def opaque(self, st, ins, fnref, obj, args):
        q = qn(fnref['q'])
        rt = ins.x.get('t') if ins.op != 'ctor' else None
        inrepo = fnref.get('in')
        pts = fnref.get('pt') or []
        if obj is not None and fnref.get('cn') and not inrepo:
            content = self.load(st, self.loc_of(obj))
            av = tuple(self.argval(st, a, pts, i) for i, a in enumerate(args))
            r = ('app', q, content) + av
            if ins.x.get('rlv'):
                r = ('&', ('*', r))
            if is_unsigned(rt):
                self.unsigned.add(r)
            self.info.setdefault(r, ('call', q, obj, tuple(args)))
            return [(st, r)]
        s = self.sym(st, q, ins, rt)
        self.info[s] = ('call', q, obj, tuple(args), tuple(self.argval(st, a, pts, i) for i, a in enumerate(args)))
        tag = ('o', st.top.ctx, ins.idx)
        if inrepo and fnref.get('id') in self.prog.functions:
            self.havoc_mod(st, fnref, tag)
        # objects passed by non-const reference or pointer may be written
        for i, a in enumerate(args):
            pt = pts[i] if i < len(pts) else ''
            if a[0] == '&' and (pt.endswith('&') or pt.endswith('*')) and not pt.startswith('const ') and not pt.endswith('&&'):
                self.havoc_loc(st, a[1:], tag + (i,))
            elif a[0] == '&' and pt.endswith('&&'):
                pass
        if obj is not None and obj[0] == '&' and not fnref.get('cn') and not inrepo:
            self.havoc_loc(st, obj[1:], tag)
        if ins.x.get('rlv'):
            return [(st, ('&', ('*', s)))]
        return [(st, s)]

    def argval(self, st, a, pts, i):
        pt = pts[i] if i < len(pts) else ''
        if a[0] == '&' and pt.endswith('&'):
            return self.load(st, a[1:])
        return a

    def havoc_mod(self, st, fnref, tag):
        mods = modset(self.prog, fnref['id'])
        dead = []
        for l in st.mem:
            if l[0][0] in ('*', 'glob') and any(isinstance(x, str) and x in mods for x in l[1:]):
                dead.append(l)
        for l in dead:
            del st.mem[l]
        if mods:
            st.epoch = tag

    # constructors -----------------------------------------------------------
    def i_ctor(self, st, ins):
        fnref = ins.x['fn']
        vals = [self.t(st, x) for x in ins.a]
        addr, args = vals[0], vals[1:]
        self.stats['calls'] += 1
        q = qn(fnref['q'])
        r = self.rule.on_call(self, st, ins, fnref, addr, args)
        if r is not None:
            out = []
            for s, v in r:
                if v is not None:
                    self.store(s, self.loc_of(addr), v)
                out += self.next(s, ins)
            return out
        m = models.find_ctor(q, ins.x.get('cls') or '')
        if m is not None:
            r = m(self, st, ins, fnref, addr, args)
            if r is not None:
                out = []
                for s, v in r:
                    if v is not None:
                        self.store(s, self.loc_of(addr), v)
                    out += self.next(s, ins)
                return out
        f = self.lookup(fnref)
        if f is not None:
            self.apply_default_inits(st, addr, f)
            r = self.do_inline(st, ins, f, addr, args, 'ctor')
            if r is not None:
                return r
        if (ins.x.get('cp') or ins.x.get('mv')) and len(args) == 1:
            src = self.loc_of(args[0])
            v = self.load(st, src)
            self.store(st, self.loc_of(addr), v)
            if ins.x.get('mv'):
                self.moved_from(st, ins, src, ins.x.get('cls'), v)
            return self.next(st, ins)
        if not args and not fnref.get('in'):
            self.store(st, self.loc_of(addr), ('app', 'default', ins.x.get('cls') or ''))
            return self.next(st, ins)
        s = self.sym(st, 'obj:' + q, ins)
        pts = fnref.get('pt') or []
        self.info[s] = ('ctor', q, addr, tuple(args), tuple(self.argval(st, a, pts, i) for i, a in enumerate(args)))
        self.store(st, self.loc_of(addr), s)
        return self.next(st, ins)

    def apply_default_inits(self, st, addr, f):
        pass

    def moved_from(self, st, ins, src, cls, v):
        cls = cls or ''
        if cls.startswith('std::unique_ptr') or cls.startswith('std::shared_ptr'):
            self.store(st, src, ZERO)
        elif cls.startswith(('std::vector', 'std::basic_string', 'std::function')):
            self.store(st, src, ('app', 'default', cls))

    # returns ------------------------------------------------------------------
    def i_ret(self, st, ins):
        v = self.t(st, ins.a[0]) if ins.a else None
        fr = st.top
        self.rule.on_return(self, st, ins, fr, v)
        if fr.mode == 'entry':
            self.rule.on_exit(self, st, ins, 'ret', v)
            return []
        self.pop(st)
        st.pc = fr.retpc
        if st.pc is None:
            return []
        if fr.mode == 'ctor':
            return [st]
        if fr.dst is not None:
            st.tmps[(st.top.ctx, fr.dst)] = v if v is not None else C(0)
        return [st]

    def i_coret(self, st, ins):
        v = self.t(st, ins.a[0]) if ins.a else None
        fr = st.top
        if ins.a and ins.x.get('lv') and v is not None and v[0] == '&':
            x = self.load(st, self.loc_of(v))
            if x[0] in ('c', 'sym', 'lin', 'phi', 'app'):
                v = x
        v = self.wrap_coret(fr.fn, v, ins.x.get('t'))
        self.rule.on_return(self, st, ins, fr, v)
        if fr.mode == 'entry':
            self.rule.on_exit(self, st, ins, 'coret', v)
            return []
        if ins.a and ins.x.get('lv') and v is not None and v[0] == '&':
            v = self.load(st, self.loc_of(v))
        self.pop(st)
        st.pc = fr.retpc
        if st.pc is None:
            return []
        if fr.dst is not None:
            st.tmps[(st.top.ctx, fr.dst)] = v if v is not None else C(0)
        return [st]

    def wrap_coret(self, fn, v, t):
        rt = fn.f['rt']
        inner = rt[rt.find('<') + 1:rt.rfind('>')] if '<' in rt else ''
        t = (t or '').replace('const ', '')
        if inner.startswith('std::expected'):
            if t.startswith('std::expected'):
                return v
            if t.startswith('std::unexpected') or (v is not None and v[0] == 'unex'):
                return ('err', v[1]) if v is not None and v[0] == 'unex' else ('err', v)
            return ('ok', v if v is not None else C(0))
        if inner.startswith('std::optional') and not t.startswith('std::optional'):
            if 'nullopt' in t or (t == 'void'):
                return ('none',)
            return ('some', v)
        return v

    # await --------------------------------------------------------------------
    def i_await(self, st, ins):
        v = self.t(st, ins.a[0])
        taddr = None
        if ins.x.get('lv'):
            taddr = v
            v = self.load(st, self.loc_of(v))
        self.stats['calls'] += 1
        extra = []
        if self.rule.may_throw(self, st, ins, {'q': '<await>', 'id': None}):
            extra = self.raise_exc(st.copy(), ins, ('exc', None))
        r = self.rule.on_await(self, st, ins, v)
        if r is not None:
            return self.outcome(r, ins) + extra
        if v[0] == 'task':
            f = self.prog.functions.get(v[2])
            if f is not None and 'body' in f:
                obj, args, closure = v[3], v[4], None
                this = obj
                if obj is not None and obj[0] == 'closureobj':
                    closure = obj[1]
                    this = self.closure_this(closure)
                elif f.get('lambda') and obj is not None:
                    closure = self.load(st, self.loc_of(obj))
                    this = self.closure_this(closure)
                r = self.do_inline(st, ins, f, this, list(args), 'await', closure=closure)
                if r is not None:
                    return r + extra
        t = ins.x.get('t')
        s = self.sym(st, 'await', ins, t)
        self.info[s] = ('await', v)
        tag = ('a', st.top.ctx, ins.idx)
        if self.rule.heap_volatile:
            self.havoc_heap(st, tag, getattr(self.rule, 'stable', None))
        # buffers handed to the awaited operation
        for a in self.args_in(v):
            if a[0] == '&' and a[1][0] == 'v':
                self.kill_contents(st, a[1:], tag)
        if ins.x.get('rlv'):
            s = ('&', ('*', s))
        return self.fin(st, ins, s) + extra

    def i_curhandle(self, st, ins):
        fr = st.top
        return self.fin(st, ins, ('handle', fr.ctx))

    def i_suspend(self, st, ins):
        h = getattr(self.rule, 'on_suspend', None)
        out = [st]
        if h:
            out = h(self, st, ins, self.t(st, ins.a[0]))
            if out is None:
                out = [st]
        res = []
        for s in out:
            if self.rule.heap_volatile:
                self.havoc_heap(s, ('a', s.top.ctx, ins.idx), getattr(self.rule, 'stable', None))
            res += self.next(s, ins)
        return res

    def args_in(self, v):
        if v[0] == 'task':
            return list(v[4])
        i = self.info.get(v)
        if i and i[0] in ('call', 'ctor'):
            return list(i[3])
        return []

    def kill_contents(self, st, loc, tag):
        pass

    # destructors ----------------------------------------------------------------
    def i_dtor(self, st, ins):
        a = self.t(st, ins.a[0])
        cls = ins.x.get('cls') or ''
        r = self.rule.on_dtor(self, st, ins, a, cls)
        if r is not None:
            return r
        c = cls.replace('const ', '').strip()
        f = self.dtor_of(c)
        if f is not None and 'body' in f and not f.get('implicit') and not f.get('defaulted'):
            r = self.do_inline(st, ins, f, a, [], 'call')
            if r is not None:
                return r
        return self.next(st, ins)

    def dtor_of(self, cls):
        c = self.prog.classes.get(cls)
        if c is None:
            return None
        for m in c['methods']:
            if m.get('ck') == 'dtor':
                return self.prog.functions.get(m['id'])
        return None


_addrs = {}


def addrs_in(t, out):
    """roots of local objects whose address occurs in t"""
    r = _addrs.get(t)
    if r is None:
        r = frozenset(x[1] for x in subterms(t) if len(x) > 1 and x[0] == '&' and isinstance(x[1], tuple) and x[1][:1] == ('v',))
        _addrs[t] = r
    out |= r


def atoms_all(t, out):
    """every symbol mentioned anywhere in a term"""
    if not isinstance(t, tuple):
        if isinstance(t, (frozenset, list, set)):
            for x in t:
                atoms_all(x, out)
        return
    for x in subterms(t):
        if x and isinstance(x[0], str):
            out.add(x)


# ------------------------------------------------------------------ field liveness
_allf = {}


def all_fields(prog, fid):
    """names of the fields mentioned by fid or anything it calls"""
    r = _allf.get(fid)
    if r is not None:
        return r
    seen, todo, out = set(), [fid], set()
    while todo:
        x = todo.pop()
        if x in seen:
            continue
        seen.add(x)
        f = prog.functions.get(x)
        if f is None or 'body' not in f:
            continue
        d = f.get('_flds')
        if d is None:
            fl, cs = set(), set()
            for root in [f.get('body')] + [i.get('i') for i in f.get('inits', [])]:
                for n in ir.walk(root):
                    k = n.get('k')
                    if k == 'mem':
                        fl.add(n['n'])
                    elif k == 'lambda':
                        cs.update(n['fns'])
            for ref, l, n in ir.calls_of(f):
                if ref.get('in'):
                    cs.add(ref['id'])
            d = f['_flds'] = (fl, cs)
        out |= d[0]
        todo.extend(d[1])
    r = _allf[fid] = frozenset(out)
    return r


def flive(prog, fn):
    r = getattr(fn, 'flive', None)
    if r is not None:
        return r
    n = len(fn.instrs)
    own = []
    for i in fn.instrs:
        if i.op == 'field':
            own.append(frozenset((i.x['n'],)))
        elif i.op in ('call', 'ctor'):
            ref = i.x['fn']
            own.append(all_fields(prog, ref['id']) if ref.get('in') else frozenset())
        elif i.op == 'lambda':
            own.append(frozenset().union(*[all_fields(prog, x) for x in i.x['fns']]))
        else:
            own.append(frozenset())
    live = [frozenset()] * n
    ch = True
    while ch:
        ch = False
        for i in reversed(fn.instrs):
            ss = [t for t in i.succ if t < n]
            if i.eh is not None:
                ss.append(i.eh)
            if len(ss) == 1 and not own[i.idx]:
                l = live[ss[0]]
            else:
                l = own[i.idx].union(*[live[t] for t in ss])
            if l is not live[i.idx] and l != live[i.idx]:
                live[i.idx] = l
                ch = True
    fn.flive = live
    return live


# ------------------------------------------------------------------ pure functions
_pure = {}


def is_pure(prog, f):
    """a branching function from scalars to a scalar without effects: its result is a function of its arguments"""
    r = _pure.get(f['id'])
    if r is not None:
        return r
    _pure[f['id']] = False
    ok = not f.get('coro') and not f.get('lambda') and (f.get('cls') is None or f.get('st')) and f['rt'] != 'void' and \
        scalar(prog, f['rt']) and f['params'] and all(scalar(prog, p['t']) for p in f['params'])
    if ok:
        br = False
        for n in ir.walk(f.get('body')):
            k = n.get('k')
            if k in ('if', 'switch', 'cond', 'for', 'while'):
                br = True
            if k in ('new', 'delete', 'throw', 'await', 'lambda'):
                ok = False
            elif k == 'ref' and n.get('d') == 'glob' and 'cv' not in n:
                ok = False
            elif k == 'call':
                fn = n.get('fn')
                if fn is None:
                    ok = False
                elif fn.get('in'):
                    g = prog.functions.get(fn['id'])
                    ok = g is not None and 'body' in g and is_pure(prog, g)
                elif not qn(fn['q']).startswith(('std::min', 'std::max', 'std::basic_string_view::')):
                    ok = False
            if not ok:
                break
        ok = ok and br
    _pure[f['id']] = bool(ok)
    return bool(ok)


def scalar(prog, t):
    t = t.replace('const ', '').strip()
    return t in BITS or t in prog.enums or t == 'std::string_view' or t == 'std::basic_string_view<char>'


# ------------------------------------------------------------------ mod sets
_mods = {}


def modset(prog, fid):
    """names of fields that may be written by fid, transitively"""
    if fid in _mods:
        return _mods[fid]
    # iterative closure over the call graph
    order, seen = [], set()
    st = [fid]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        f = prog.functions.get(x)
        if f is None or 'body' not in f:
            continue
        order.append(x)
        for ref, l, n in ir.calls_of(f):
            if ref.get('in'):
                st.append(ref['id'])
        for n in ir.walk(f.get('body')):
            if n.get('k') == 'lambda':
                st.extend(n['fns'])
    out = set()
    for x in order:
        out |= direct_mods(prog.functions[x])
    _mods[fid] = out
    return out


_dm = {}


def direct_mods(f):
    r = _dm.get(f['id'])
    if r is not None:
        return r
    out = set()

    def lv(e):
        while isinstance(e, dict):
            if e.get('k') == 'mem':
                out.add(e['n'])
                e = e.get('b')
            elif e.get('k') in ('cast', 'idx', 'un', 'ld', 'mat'):
                e = e.get('x')
            elif e.get('k') == 'call':
                e = e.get('o')
            else:
                return
    for n in ir.walk(f.get('body')):
        k = n.get('k')
        if k == 'asg':
            lv(n['x'])
        elif k == 'un' and n.get('op') in ('++', '--', 'post++', 'post--', '&'):
            lv(n['x'])
        elif k == 'call':
            fn = n.get('fn')
            if n.get('o') is not None and not (fn or {}).get('cn'):
                lv(n['o'])
            pts = (fn or {}).get('pt') or []
            off = 0
            for i, a in enumerate(n.get('a', [])):
                pt = pts[i] if i < len(pts) else ''
                if (pt.endswith('&') or pt.endswith('*')) and not pt.startswith('const ') and a:
                    lv(a)
    for i in f.get('inits', []):
        if i.get('m'):
            out.add(i['m'])
    _dm[f['id']] = out
    return out
