"""MPSC queue: slot protocol (C07) and item lifetime (C08)."""
from .common import *

Q = 'kio::MPSCQueue'
THIS = ('p', 'this')
ROOT = ('*', THIS)
ACQ, REL = (1, 2, 4, 5), (3, 4, 5)
POS, CNT, VI, VX, VS = (('v', 0, '#' + n) for n in ('pos', 'cnt', 'vi', 'vx', 'vs'))


def cell_of(loc):
    """the slot an address lies in: (slot location, position index) or None"""
    if loc and loc[0] == ROOT:
        for i, x in enumerate(loc):
            if isinstance(x, tuple) and x and x[0] == '[]':
                return loc[:i + 1], x[1]
    return None


def index_pos(idx):
    """(position, kind, modulus term) of a slot index: position & mask or position % size"""
    if idx[0] == 'app' and idx[1] in ('&', '%') and len(idx) == 4:
        return idx[2:], idx[1]
    return None


def orders(fn, args, i):
    o = [a for a in args[i:] if a[0] == 'c']
    return o[0][1] if o else 5


class Queue(R):
    label = 'mpsc-queue'
    ranged = False            # the slots are initialised by a range-for over all of them
    heap_volatile = False
    numeric = True

    def __init__(self, kind, scalar, checks):
        self.kind, self.scalar, self.checks = kind, scalar, checks
        self.exits = {}
        self.claims = set()

    def invariant(self, eng, st):
        """what the constructor establishes (and nothing changes)"""
        size = eng.load(st, (ROOT, self.buf, '#size'), 'unsigned long')
        eng.unsigned.add(size)
        for m in self.masks:
            v = eng.load(st, (ROOT, m), 'unsigned long')
            eng.unsigned.add(v)
            for p in (mk_eq(sub(add(v, ONE), size)), mk_le(sub(size, add(v, ONE))), mk_le(sub(add(v, ONE), size))):
                st.facts = {**st.facts, p: True}

    # events are kept in st.auto, so paths with different events stay apart
    def ev(self, st, *e):
        st.auto = st.auto + (e,)

    def evs(self, st, k):
        return [e for e in st.auto if e[0] == k]

    def poskind(self, loc):
        return loc[1] if len(loc) == 2 and loc[0] == ROOT else None

    def matches(self, eng, st, cell, pos):
        x = index_pos(cell[-1][1])
        if x is None:
            return cell[-1][1] == pos
        (a, b), k = x
        if k == '%':
            return eq(eng, st, a, pos)
        return eq(eng, st, a, pos) or eq(eng, st, b, pos)

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if obj is not None and (q.startswith('std::__atomic_base::') or q.startswith('std::atomic::')) and b != 'atomic' and not b.startswith('~'):
            return self.atomic(eng, st, ins, fn, b, eng.loc_of(obj), obj, args)
        if q in ('std::construct_at', 'std::destroy_at') and args and args[0][0] == '&' and cell_of(args[0][1:]):
            return self.element(eng, st, ins, 'make' if q.endswith('construct_at') else 'kill', cell_of(args[0][1:]), args[1:], args[0])
        if q == 'std::atomic_thread_fence':
            if orders(fn, args, 0) in REL:
                st.auto = tuple(e for e in st.auto if e != ('fence',)) + (('fence',),)
            return [(st, ('unk', 'void', 0))]
        if q == 'std::launder':
            return [(st, args[0])]
        if obj is not None and obj[0] == '&':
            c = cell_of(obj[1:])
            if c is not None and len(obj) - 1 > len(c[0]):
                parts = q.split('::')
                if b.startswith('~'):
                    return self.element(eng, st, ins, 'kill', c, args, obj)
                if len(parts) > 1 and parts[-1] == parts[-2]:
                    return self.element(eng, st, ins, 'make', c, args, obj)
                if b == 'operator=':
                    return self.element(eng, st, ins, 'assign', c, args, obj)
        src = [cell_of(a[1:]) for a in args if a[0] == '&']
        src = [c for c in src if c is not None]
        if obj is not None and src and (b == 'operator=' or q.split('::')[-1:] == q.split('::')[-2:-1]):
            st.auto = tuple(e for e in st.auto if e != ('fence',))
            self.ev(st, 'take', src[0][0])
            if obj == ('p', 'item') or (obj[0] == '&' and obj[1:] == (('*', ('p', 'item')),)):
                self.ev(st, 'deliver')
            return [(st, obj if b == 'operator=' else eng.sym(st, 'taken', ins))]
        if obj is not None and b == 'operator=' and (obj == ('p', 'item') or (obj[0] == '&' and obj[1:] == (('*', ('p', 'item')),))):
            self.ev(st, 'deliver')
            return [(st, obj)]
        return None

    def on_store(self, eng, st, ins, loc, val):
        c = cell_of(loc)
        if c is not None and len(loc) > len(c[0]) and ins is not None:
            if self.scalar:
                self.element(eng, st, ins, 'make', c, [val], None)
            return
        if self.scalar and val[0] == 'init' and cell_of(val[1]) is not None:
            self.ev(st, 'take', cell_of(val[1])[0])
        if self.scalar and loc == (('*', ('p', 'item')),):
            self.ev(st, 'deliver')

    def element(self, eng, st, ins, what, c, args, obj):
        cell = c[0]
        if self.kind == 'push':
            ok = what == 'make'
            claims = self.evs(st, 'claim')
            ok = ok and len(claims) == 1 and claims[0][2] and self.matches(eng, st, cell, claims[0][1]) and not self.evs(st, 'make') and not self.evs(st, 'pub')
            self.need(eng, st, ins, ok, 'construct in claimed slot',
                      'an item is placed in a slot that this push has not claimed (or not exactly once, or after publishing it)')
        elif self.kind == 'pop':
            if what == 'kill':
                ok = self.ready(eng, st, cell) and not self.evs(st, 'kill') and not self.evs(st, 'pub') and bool(self.evs(st, 'take'))
                self.need(eng, st, ins, ok, 'destroy taken item', 'an item is destroyed before it was taken out, twice, or after the slot was given back')
            else:
                self.need(eng, st, ins, False, 'pop only removes', 'taking an item constructs or assigns one in the slot')
        elif self.kind == 'dtor' and what == 'kill':
            ok = bool(self.evs(st, 'visit')) and st.mem.get((VX,)) == cell[-1][1] and self.holds(eng, st) is True
            if 'life' in self.checks:
                self.need(eng, st, ins, ok, 'destroy left item', 'the destructor destroys a slot that holds no item, or destroys it twice')
            st.auto = tuple(e for e in st.auto if e[0] != 'visit') + (('visited', False),)
            return [(st, obj if obj is not None else ZERO)]
        elif self.kind == 'dtor' and what == 'make' and 'life' in self.checks:
            self.need(eng, st, ins, False, 'destructor only destroys', 'the destructor constructs an item in a slot')
        if self.kind == 'dtor':
            return [(st, obj if obj is not None else ZERO)]
        st.auto = tuple(e for e in st.auto if e != ('fence',))
        self.ev(st, what, cell)
        return [(st, obj if obj is not None else ZERO)]

    def ready(self, eng, st, cell):
        """the slot was seen (acquire) to hold the item of its position on this path"""
        for e in self.evs(st, 'seen'):
            if e[1] == cell and e[4]:
                return True
        return False

    def atomic(self, eng, st, ins, fn, b, loc, obj, args):
        c = cell_of(loc)
        if b in ('load', 'operator unsigned long') or b.startswith('operator unsigned'):
            s = eng.sym(st, 'aload', ins, 'unsigned long')
            eng.unsigned.add(s)
            o = orders(fn, args, 0)
            if c is not None:
                if self.kind == 'dtor':
                    self.visit(eng, st, ins, c, s)
                else:
                    if self.evs(st, 'seen') and 'protocol' in self.checks:
                        self.need(eng, st, ins, ('ahead',) in st.auto or ('retry',) in st.auto, 'retry after progress',
                                  'the operation spins on a full or empty queue instead of failing')
                    st.auto = tuple(e for e in st.auto if e[0] not in ('seen', 'ahead', 'retry')) + (('seen', c[0], s, o, False),)
            else:
                f = self.poskind(loc)
                st.auto = tuple(e for e in st.auto if not (e[0] == 'posload' and e[1] == f)) + (('posload', f, s),)
                if self.kind == 'dtor' and f == self.deq and st.mem.get((POS,)) is None:
                    eng.store(st, (POS,), s)
            return [(st, s)]
        if b.startswith('compare_exchange'):
            return self.cas(eng, st, ins, fn, loc, c, args)
        if b in ('store', 'operator='):
            v = args[0]
            o = orders(fn, args, 1)
            if o == 0 and ('fence',) in st.auto:
                o = 3
            if c is not None:
                self.publish(eng, st, ins, c[0], v, o)
            elif self.kind == 'ctor' and loc and loc[0][0] == '*' and loc[0][1][:2] == ('sym', 'elem'):
                # the elements of a range-for over the slots come one by one, in order
                n = st.mem.get((CNT,))
                self.need(eng, st, ins, n is not None and eq(eng, st, v, n), 'initial slot state', 'a slot does not start out free for its first position')
                eng.store(st, (CNT,), add(n if n is not None else ZERO, ONE))
                self.ranged = True
            else:
                eng.store(st, loc, v)
                self.posstore(eng, st, ins, self.poskind(loc), v)
            return [(st, ('unk', 'void', 0))]
        if b in ('fetch_add', 'operator++', 'operator+=') and c is None:
            s = eng.sym(st, 'aload', ins, 'unsigned long')
            eng.unsigned.add(s)
            n = ONE if b == 'operator++' else args[0]
            pl = [e[2] for e in self.evs(st, 'posload') if e[1] == self.poskind(loc)]
            # the only writer of the consumer position is the consumer: it still has the value it was loaded with
            self.posstore(eng, st, ins, self.poskind(loc), add(pl[-1] if self.kind == 'pop' and pl else s, n))
            return [(st, s if not (b == 'operator++' and not args) else add(s, ONE))]
        self.need(eng, st, ins, False, 'atomic ' + b, 'unexpected atomic operation in the queue protocol')
        return None

    def cas(self, eng, st, ins, fn, loc, c, args):
        exp = eng.load(st, eng.loc_of(args[0])) if args[0][0] == '&' else args[0]
        des = args[1]
        ok, bad = st.copy(), st.copy()
        f = self.poskind(loc)
        if c is not None or f is None:
            self.need(eng, st, ins, False, 'position claim', 'a compare-exchange on something that is not a queue position')
        elif self.kind == 'push':
            seen = self.evs(st, 'seen')
            good = bool(seen) and self.matches(eng, st, seen[-1][1], exp) and eq(eng, st, seen[-1][2], exp)
            if 'protocol' in self.checks:
                self.need(eng, st, ins, good, 'claim free slot', 'a position is claimed although its slot was not seen to be free for it')
                self.need(eng, st, ins, eq(eng, st, des, add(exp, ONE)), 'claim next position', 'a push does not move the position forward by one')
                if seen:
                    self.need(eng, st, ins, seen[-1][3] in ACQ, 'acquire free slot',
                              'the slot state is read without acquire order: the item can be written before the consumer has taken the old one')
                self.need(eng, st, ins, not self.evs(st, 'claim'), 'claim once', 'a push claims two positions')
            self.ev(ok, 'claim', exp, good, f)
            self.claims.add((0, 0, 0, f))
            eng.store(ok, loc, des)
        else:
            self.posstore(eng, ok, ins, f, des)
        s = eng.sym(st, 'cas', ins)
        ok.facts = {**ok.facts, mk_eq(s): False}
        bad.facts = {**bad.facts, mk_eq(s): True}
        v = ('sym', 'casval', bad.top.ctx, ins.idx)
        eng.unsigned.add(v)
        self.ev(bad, 'retry')
        if args[0][0] == '&':
            eng.retire(bad, v)
            eng.store(bad, eng.loc_of(args[0]), v)
        return [(ok, s), (bad, s)]

    def publish(self, eng, st, ins, cell, v, o):
        if self.kind == 'push':
            cl = self.evs(st, 'claim')
            if 'protocol' in self.checks:
                ok = len(cl) == 1 and self.matches(eng, st, cell, cl[0][1]) and bool(self.evs(st, 'make')) and not self.evs(st, 'pub')
                self.need(eng, st, ins, ok, 'publish after construct', 'a slot is published that does not (yet) hold the item of this push')
                if cl:
                    self.need(eng, st, ins, eq(eng, st, v, add(cl[0][1], ONE)), 'publish value', 'the published slot state is not the one the consumer waits for')
                self.need(eng, st, ins, o in REL, 'release item', 'the slot is published without release order: the consumer can see it before the item')
        elif self.kind == 'pop':
            if 'protocol' in self.checks:
                p = self.pos_of(eng, st, cell)
                self.need(eng, st, ins, self.ready(eng, st, cell) and bool(self.evs(st, 'take')) and not self.evs(st, 'pub'), 'give back after take',
                          'a slot is given back to the producers before its item was taken out')
                self.need(eng, st, ins, o in REL, 'release slot', 'the slot is given back without release order: a producer can overwrite the item while it is read')
                self.need(eng, st, ins, p is not None and self.lap(eng, st, cell, p, v), 'give back value', 'the slot is not given back for exactly the next lap')
            if 'life' in self.checks and not self.trivial:
                self.need(eng, st, ins, bool(self.evs(st, 'kill')), 'destroy before give back', 'the slot is given back before the taken item is destroyed')
        elif self.kind == 'ctor':
            n = st.mem.get((CNT,))
            if 'protocol' in self.checks:
                self.need(eng, st, ins, eq(eng, st, cell[-1][1], v), 'initial slot state', 'a slot does not start out free for its first position')
                self.need(eng, st, ins, n is not None and eq(eng, st, cell[-1][1], n), 'slots in order', 'the initialisation of the slots leaves one out')
                size = eng.load(st, (ROOT, self.buf, '#size'), 'unsigned long')
                self.need(eng, st, ins, lt(eng, st, cell[-1][1], size), 'slot exists', 'the initialisation writes past the last slot')
            eng.store(st, (CNT,), add(n if n is not None else ZERO, ONE))
            return
        if self.kind != 'dtor':
            self.ev(st, 'pub', cell)

    def pos_of(self, eng, st, cell):
        for e in self.evs(st, 'posload'):
            if self.matches(eng, st, cell, e[2]):
                return e[2]
        x = index_pos(cell[-1][1])
        if x:
            for t in x[0]:
                if not (t[0] == 'init' and t[1][0] == ROOT):
                    return t
        return None

    def lap(self, eng, st, cell, p, v):
        x = index_pos(cell[-1][1])
        if x is None:
            return False
        (a, b), k = x
        n = sub(v, p)
        m = b if a == p or eq(eng, st, a, p) else a
        return eq(eng, st, n, add(m, ONE)) if k == '&' else eq(eng, st, n, m)

    def posstore(self, eng, st, ins, f, v):
        if self.kind == 'pop':
            seen = self.evs(st, 'seen')
            p = self.pos_of(eng, st, seen[-1][1]) if seen else None
            good = p is not None and eq(eng, st, seen[-1][2], add(p, ONE))
            if 'protocol' in self.checks:
                self.need(eng, st, ins, good, 'advance over ready slot', 'the consumer advances over a slot that was not seen to hold an item')
                if p is not None:
                    self.need(eng, st, ins, eq(eng, st, v, add(p, ONE)), 'advance by one', 'the consumer does not advance by exactly one slot')
                self.need(eng, st, ins, not self.evs(st, 'adv'), 'advance once', 'the consumer advances twice for one item')
            self.ev(st, 'adv', f)
        elif self.kind == 'push':
            self.need(eng, st, ins, False, 'claim atomically', 'a push moves a queue position without a compare-exchange')
        elif self.kind == 'ctor':
            if 'protocol' in self.checks:
                self.need(eng, st, ins, eq(eng, st, v, ZERO), 'initial position', 'a queue position does not start at zero')

    def on_branch(self, eng, st, ins, pred, taken):
        self.settle(eng, st)

    def settle(self, eng, st):
        """a visited slot whose state is known to hold nothing needs no destruction"""
        for e in self.evs(st, 'visit'):
            if self.holds(eng, st) is False:
                st.auto = tuple(x for x in st.auto if x[0] != 'visit') + (('visited', e[1]),)
        if self.kind in ('push', 'pop') and ('ahead',) not in st.auto:
            for e in self.evs(st, 'seen'):
                p = self.pos_of(eng, st, e[1])
                p = p if p is None or self.kind == 'push' else add(p, ONE)
                if p is not None and (lt(eng, st, p, e[2]) or le(eng, st, p, e[2]) and eng.truth(st, mk_eq(sub(p, e[2]))) is False):
                    self.ev(st, 'ahead')

    def holds(self, eng, st):
        """whether the slot the destructor looked at holds an item"""
        return eng.truth(st, mk_eq(sub(st.mem[(VS,)], add(st.mem[(VI,)], ONE))))

    def refresh(self, eng, st):
        """mark the seen slot as ready once the path knows it"""
        out = []
        for e in st.auto:
            if e[0] == 'seen' and not e[4]:
                p = self.pos_of(eng, st, e[1])
                if p is not None and eq(eng, st, e[2], add(p, ONE)):
                    e = e[:4] + (True,)
                    if self.kind == 'pop' and 'protocol' in self.checks and e[3] not in ACQ:
                        self.need(eng, st, None, False, 'acquire item', 'the slot state is read without acquire order: the item may not be visible yet')
                    elif self.kind == 'pop':
                        self.need(eng, st, None, True, 'acquire item', '')
            out.append(e)
        st.auto = tuple(out)

    def visit(self, eng, st, ins, c, s):
        self.handled(eng, st, ins)
        x = index_pos(c[1])
        i = self.pos_of(eng, st, c[0])
        pos = st.mem.get((POS,))
        fresh = any(e[2] == i and e[1] == self.deq for e in self.evs(st, 'posload'))
        if 'life' in self.checks:
            self.need(eng, st, ins, i is not None and (fresh or (pos is not None and eq(eng, st, i, pos))), 'drain in order', 'the destructor skips slots')
        st.auto = tuple(e for e in st.auto if e[0] in ('posload', 'init')) + (('visit', fresh),)
        eng.store(st, (VI,), i if i is not None else ZERO)
        eng.store(st, (VX,), c[0][-1][1])
        eng.store(st, (VS,), s)
        if i is not None:
            eng.store(st, (POS,), add(i, ONE))

    def handled(self, eng, st, ins):
        self.settle(eng, st)
        if self.evs(st, 'visit') and not self.trivial and 'life' in self.checks:
            self.need(eng, st, ins, False, 'left item destroyed', 'the destructor leaves an item undestroyed')

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        if self.kind in ('push', 'pop'):
            t = val[1] != 0 if val is not None and val[0] == 'c' else eng.truth(st, val) if val is not None else None
            if t is None:
                self.need(eng, st, ins, False, 'result', 'the result of the operation is not determined by what it did')
                return
            self.exits[t] = self.exits.get(t, 0) + 1
            n = lambda k: len(self.evs(st, k))
            proto = 'protocol' in self.checks
            if self.kind == 'push':
                if t:
                    if proto:
                        self.need(eng, st, ins, n('claim') == 1 and n('make') == 1 and n('pub') == 1, 'push completes', 'a push reports success without having claimed, filled and published one slot')
                else:
                    self.need(eng, st, ins, not n('claim') and not n('make') and not n('pub'), 'failed push has no effect', 'a push that reports failure has claimed or filled a slot')
                    if proto:
                        seen = self.evs(st, 'seen')
                        p = self.pos_of(eng, st, seen[-1][1]) if seen else None
                        self.need(eng, st, ins, p is not None and lt(eng, st, seen[-1][2], p), 'full verdict', 'a push fails although the queue was not seen to be full')
            else:
                if t:
                    if proto:
                        self.need(eng, st, ins, n('adv') == 1 and n('deliver') >= 1 and n('take') >= 1 and n('pub') == 1, 'pop completes', 'a pop reports success without having delivered one item and given its slot back')
                    elif not self.trivial:
                        self.need(eng, st, ins, n('kill') == 1, 'popped item destroyed', 'the item taken out of its slot is not destroyed')
                else:
                    self.need(eng, st, ins, not n('adv') and not n('deliver') and not n('take') and not n('pub') and not n('kill'), 'failed pop has no effect', 'a pop that reports failure has removed something')
                    if proto:
                        seen = self.evs(st, 'seen')
                        p = self.pos_of(eng, st, seen[-1][1]) if seen else None
                        self.need(eng, st, ins, p is not None and le(eng, st, seen[-1][2], p), 'empty verdict', 'a pop fails although the queue was not seen to be empty')
        elif self.kind == 'ctor':
            size = eng.load(st, (ROOT, self.buf, '#size'), 'unsigned long')
            if 'protocol' in self.checks:
                n = st.mem.get((CNT,))
                self.need(eng, st, ins, n is not None and (self.ranged or le(eng, st, size, n)), 'all slots initialised', 'not every slot is initialised')
                self.need(eng, st, ins, le(eng, st, C(2), size), 'at least two slots', 'a queue with one slot cannot tell a full slot from a free one')
                self.need(eng, st, ins, le(eng, st, self.cap, size), 'capacity', 'the queue has fewer slots than its capacity')
                for m in self.masks:
                    v = eng.load(st, (ROOT, m), 'unsigned long')
                    self.need(eng, st, ins, eq(eng, st, add(v, ONE), size), 'index mask', 'the index mask is not the number of slots minus one')
                for f in self.atomics:
                    z = eng.load(st, (ROOT, f), 'unsigned long')
                    self.need(eng, st, ins, eq(eng, st, z, ZERO), 'initial ' + f, 'a queue position does not start at zero')
        elif self.kind == 'dtor':
            self.handled(eng, st, ins)
            if 'life' in self.checks:
                pos = st.mem.get((POS,))
                e = [x[2] for x in self.evs(st, 'posload') if x[1] != self.deq]
                ok = ('visited', True) in st.auto
                ok = ok or (pos is not None and any(le(eng, st, x, pos) for x in e))
                self.need(eng, st, ins, ok, 'drain to the end', 'the destructor stops before the last item')

    # keep the ready mark up to date where it is asked for
    def on_load(self, eng, st, ins, loc, val):
        return None


class Pop(Queue):
    def on_call(self, eng, st, ins, fn, obj, args):
        self.refresh(eng, st)
        return Queue.on_call(self, eng, st, ins, fn, obj, args)

    def on_store(self, eng, st, ins, loc, val):
        self.refresh(eng, st)
        return Queue.on_store(self, eng, st, ins, loc, val)


def run(chk, checks):
    prog = chk.prog
    insts = [c for q, c in prog.classes.items() if q.startswith(Q + '<') and q.endswith('>') and c.get('methods')]
    n = 0
    for c in insts:
        q = c['t']
        T = q[len(Q) + 1:-1]
        scalar = numtype(T) is not None or T.endswith('*')
        tc = prog.classes.get(T)
        trivial = scalar or T.startswith('std::coroutine_handle') or bool(tc and tc.get('trivdtor'))
        by = {}
        for f in prog.functions.values():
            if f.get('cls') == q and 'body' in f:
                by.setdefault(base_name(f['q']), []).append(f)
        fields = c['fields']
        buf = [f['n'] for f in fields if f['t'].startswith('std::vector<')]
        atom = [f['n'] for f in fields if 'std::atomic<' in f['t'] or 'atomic' in f['t'].split('<')[0]]
        masks = [f['n'] for f in fields if is_unsigned(f['t'].replace('const ', '').strip())]
        if not by.get('try_pop') or len(buf) != 1:
            continue
        n += 1

        def mk(kind):
            r = (Pop if kind == 'pop' else Queue)(kind, scalar, checks)
            r.buf, r.masks, r.atomics = buf[0], [m for m in masks], atom
            r.deq, r.trivial = deq, trivial
            return r
        # the consumer position is the one try_pop reads
        deq = consumer_field(prog, by['try_pop'][0], atom)
        for f in by['try_pop']:
            r = mk('pop')
            chk.run(r, f, 30000, this=THIS, args=[('p', 'item')], setup=r.invariant)
            if set(r.exits) != {True, False}:
                chk.require('mpsc-queue', 'both outcomes of try_pop', f['file'], f['line'], False, 'try_pop has only one outcome')
        for f in by.get('try_push', []):
            r = mk('push')
            chk.run(r, f, 30000, this=THIS, setup=r.invariant)
            if set(r.exits) != {True, False}:
                chk.require('mpsc-queue', 'both outcomes of try_push', f['file'], f['line'], False, 'try_push has only one outcome')
            if 'protocol' in checks:
                pf = {e[3] for e in r.claims}
                chk.require('mpsc-queue', 'producer position', f['file'], f['line'], deq not in pf, 'producers and the consumer use the same position')
        for f in by.get('MPSCQueue', []):
            if not f.get('params') or 'MPSCQueue' in f['params'][0]['t'] or 'protocol' not in checks:
                continue
            r = mk('ctor')
            cap = ('p', 'capacity')
            r.cap = cap
            r.numeric = True

            def setup(eng, st):
                eng.unsigned.add(cap)
                st.facts = {mk_le(sub(ONE, cap)): True, mk_le(sub(cap, C(2 ** 62))): True}
                eng.store(st, (CNT,), ZERO)
            chk.run(r, f, 30000, this=THIS, args=[cap], setup=setup)
        for f in by.get('~MPSCQueue', []):
            if 'life' in checks:
                r = mk('dtor')
                chk.run(r, f, 30000, this=THIS, setup=r.invariant)
        if 'life' in checks and not trivial:
            f = by['try_pop'][0]
            chk.require('mpsc-queue', 'destructor', f['file'], f['line'], by.get('~MPSCQueue'), 'the queue has no destructor: items left in it are never destroyed')
    if n < 3:
        raise CheckError('queue: only %d instantiations analysed' % n)
    chk.count('instantiations', n)


def consumer_field(prog, f, atoms):
    """the atomic member that try_pop touches besides the slots"""
    hit = set()
    seen = set()

    def walk(g):
        if g['id'] in seen:
            return
        seen.add(g['id'])

        def rec(e):
            if isinstance(e, dict):
                if e.get('k') == 'member' or 'n' in e or 'f' in e:
                    for k in ('n', 'f', 'm'):
                        if e.get(k) in atoms:
                            hit.add(e[k])
                for v in e.values():
                    rec(v)
            elif isinstance(e, list):
                for v in e:
                    rec(v)
        rec(g.get('body'))
        for ref, l, nn in ir.calls_of(g):
            h = prog.functions.get(ref.get('id'))
            if h and 'body' in h and h.get('cls') == g.get('cls'):
                walk(h)
    walk(f)
    if len(hit) != 1:
        raise CheckError('queue: cannot identify the consumer position')
    return hit.pop()


def protocol(chk):
    run(chk, {'protocol'})


def lifetime(chk):
    run(chk, {'life'})
