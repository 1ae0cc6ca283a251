"""Metrics: the text exposition (C15), registry and collectors (C16)."""
import re
from .common import *

THIS = ('p', 'this')
ROOT = ('*', THIS)


def fns(chk, q):
    return [f for f in chk.prog.functions.values() if qn(f['q']) == q and 'body' in f]


# ---------------------------------------------------------------- the line grammar as an automaton, texts as its transition maps
class Grammar:
    """lines of the exposition; N family name, H help (escaped), T type, K label key, V label value (escaped), X sample value"""
    LINES = ['# HELP N H\n', '# TYPE N T\n', '\n', 'N X\n']

    def __init__(self):
        self.n = 1
        self.t = {}
        for l in ('# HELP \x01N \x01H\n', '# TYPE \x01N \x01T\n', '\n'):
            self.seq(0, l, 0)
        a = self.seq(0, '\x01N')
        b = self.seq(a, ' ')
        self.seq(b, '\x01X\n', 0)
        k = self.seq(a, '{')
        v = self.seq(k, '\x01K="\x01V"')
        c = self.seq(v, ',')
        self.seq(c, '\x01K="\x01V"', v)
        e = self.seq(v, '}')
        self.seq(c, '}', e)
        self.seq(k, '}', e)
        self.seq(e, ' ', b)
        self.id = tuple(range(self.n))
        self.dead = tuple([-1] * self.n)

    def seq(self, s, text, end=None):
        syms = re.findall('\x01.|[^\x01]', text, re.S)
        for i, x in enumerate(syms):
            if i == len(syms) - 1 and end is not None:
                self.t[s, x] = end
                s = end
            elif (s, x) in self.t:
                s = self.t[s, x]
            else:
                self.t[s, x] = self.n
                s = self.n
                self.n += 1
        return s

    def sym(self, x):
        return tuple(self.t.get((s, x), -1) for s in range(self.n))

    def text(self, s):
        e = self.id
        for c in s:
            e = self.comp(e, self.sym(c))
        return e

    def comp(self, a, b):
        return tuple(b[x] if x >= 0 else -1 for x in a)


G = Grammar()


def txt(e):
    return ('app', 'txt', ('s', e))


def elem(v):
    return v[2][1] if isinstance(v, tuple) and v[:2] == ('app', 'txt') else None


def norm(p):
    """a place, the index of a loop left open"""
    return tuple(('[]', '*') if isinstance(x, tuple) and x[:1] == ('[]',) else x for x in p)


def same(a, b):
    """can the two places be the same (a place known only after a merge can be any)"""
    return a == b or any("'phi'" in repr(x) for x in (a, b))


FIELDS = {'name': 'N', 'help': 'H', 'type': 'T', 'first': 'K', 'second': 'V', 'value': 'X'}


class Expo(R):
    """the serializer: grammar of the text, every family, sample and label exactly once"""
    label = 'exposition'
    heap_volatile = False
    fast = True
    max_states = 60
    max_head = 30

    def __init__(self):
        self.esc = {}             # kind -> escaping functions used for it
        self.done = 0
        self.tokens = set()
        self.loops = {}

    # auto: sorted dict
    def get(self, st, k, d=None):
        return dict(st.auto).get(k, d)

    def put(self, st, **kw):
        d = dict(st.auto)
        for k, v in kw.items():
            if v is None:
                d.pop(k, None)
            else:
                d[k] = v
        st.auto = tuple(sorted(d.items(), key=repr))

    def sink(self, st, loc):
        return self.get(st, ('sink', loc), G.id)

    def setsink(self, eng, st, loc, e):
        d = dict(st.auto)
        d[('sink', loc)] = e
        st.auto = tuple(sorted(d.items(), key=repr))

    # ---- what a value is
    def path(self, eng, st, a):
        """field path a value was read from"""
        a0 = a
        if a[0] == '&':
            v = eng.load(st, eng.loc_of(a))
            if elem(v) is not None or models.strip(v)[0] in ('s', 'app', 'c'):
                a0 = models.strip(v)
            else:
                v = models.strip(v)
                a0 = v
                if v[0] != 'init':
                    return eng.loc_of(a), v
        a0 = models.strip(a0)
        if a0[0] == 'init':
            return a0[1], a0
        return None, a0

    def kind(self, eng, st, a):
        p, v = self.path(eng, st, a)
        if p is None:
            return None, None
        return (FIELDS[p[-1]], norm(p[:-1])) if p[-1] in FIELDS else (None, None)

    def family(self, eng, st, ins, who, opens):
        cur = self.get(st, 'fam')
        if opens:
            if self.get(st, 'nhelp', 0) or cur is None:
                self.close_family(eng, st, ins)
                self.put(st, fam=who)
            else:
                self.need(eng, st, ins, same(cur, who), 'own name', 'a line carries the name of another family')
        else:
            self.need(eng, st, ins, same(cur, who), 'own name', 'a line carries the name of another family')

    def close_family(self, eng, st, ins):
        self.close_sample(eng, st, ins)
        if self.get(st, 'fam') is not None:
            self.need(eng, st, ins, self.get(st, 'nhelp', 0) == 1 and self.get(st, 'ntype', 0) == 1, 'every family', 'a family does not appear with exactly one HELP and one TYPE line')
            self.need(eng, st, ins, self.get(st, 'scan', 0) == 1, 'every sample', 'the samples of a family are not written (exactly once)')
        self.put(st, fam=None, nhelp=None, ntype=None, scan=None)

    def close_sample(self, eng, st, ins):
        if self.get(st, 'smp'):
            self.need(eng, st, ins, self.get(st, 'nval', 0) == 1, 'every sample', 'a sample is not written exactly once')
        self.put(st, smp=None, nval=None)

    def close_label(self, eng, st, ins, must=False):
        if self.get(st, 'lab') or must:
            self.need(eng, st, ins, (self.get(st, 'nk', 0), self.get(st, 'nv', 0)) == (1, 1), 'every label', 'a label of a sample is not written exactly once')
        self.put(st, lab=None, nk=None, nv=None)

    def token(self, eng, st, ins, t, who):
        self.tokens.add(t)
        if t in 'HTX':
            n = self.get(st, 'namer')
            self.need(eng, st, ins, n is None or same(n, who if t != 'X' else self.get(st, 'fam')), 'own name', 'a line carries the name of another family')
            self.put(st, namer=None)
        if t == 'N':
            self.put(st, namer=who)
        elif t == 'H':
            self.family(eng, st, ins, who, True)
            self.put(st, nhelp=min(self.get(st, 'nhelp', 0) + 1, 2))
        elif t == 'T':
            self.family(eng, st, ins, who, False)
            self.put(st, ntype=min(self.get(st, 'ntype', 0) + 1, 2))
        elif t in 'KV':
            n = 'nk' if t == 'K' else 'nv'
            self.put(st, lab=1, **{n: min(self.get(st, n, 0) + 1, 2)})
            o = self.get(st, 'pair')
            if t == 'K':
                self.put(st, pair=who)
            else:
                self.need(eng, st, ins, o is None or same(o, who), 'own value', 'a label value is written under the key of another label')
        elif t == 'X':
            self.close_label(eng, st, ins)
            self.need(eng, st, ins, bool(self.get(st, 'lscan')), 'every label', 'a sample is written before all its labels are')
            self.put(st, pair=None, lscan=None)
            self.put(st, smp=1, nval=min(self.get(st, 'nval', 0) + 1, 2))
            self.put(st, scan=self.get(st, 'scan', 0) or None)
        return G.sym('\x01' + t)

    def text_of(self, eng, st, ins, a, char=False, spec=''):
        """transition map of the text a value is written as"""
        p, v = self.path(eng, st, a)
        if elem(v) is not None:
            return elem(v)
        if v[0] == 's' and isinstance(v[1], str):
            if v[1] in ('counter', 'gauge', 'untyped'):
                return None
            return G.text(v[1])
        if v[0] == 'c' and char:
            return G.text(chr(v[1] & 255))
        k, who = self.kind(eng, st, a)
        if k in ('H', 'K', 'V'):
            self.need(eng, st, ins, False, 'escaped', {'H': 'a help text', 'K': 'a label name', 'V': 'a label value'}[k] + ' is written without escaping')
            return self.token(eng, st, ins, k, who)
        if k == 'N':
            return self.token(eng, st, ins, 'N', who)
        if k == 'X':
            exact = not spec or spec.strip(':') == '' or spec in (':.17g', ':.17', ':.17e')
            self.need(eng, st, ins, exact, 'exact value', 'a metric value is written with fewer digits than it has')
            return self.token(eng, st, ins, 'X', who)
        return None

    def emit(self, eng, st, ins, loc, e, what=''):
        self.need(eng, st, ins, e is not None, 'known text', 'the exposition contains something that is neither a part of the format nor of a metric' + what)
        if e is None:
            return
        r = G.comp(self.sink(st, loc), e)
        if not self.get(st, 'bad'):
            self.need(eng, st, ins, any(x >= 0 for x in r), 'format', 'the text is not in the exposition format here')
        if all(x < 0 for x in r):
            self.put(st, bad=1)
            r = G.id
        self.setsink(eng, st, loc, r)

    def fmt(self, eng, st, ins, lit, args):
        e = G.id
        n = 0
        i = 0
        for m in re.finditer(r'\{\{|\}\}|\{([^{}]*)\}|[^{}]', lit, re.S):
            x = m.group(0)
            if x in ('{{', '}}'):
                y = G.text(x[0])
            elif x[0] == '{':
                g = m.group(1)
                idx, _, spec = g.partition(':')
                k = int(idx) if idx.isdigit() else n
                n += 1
                if k >= len(args):
                    return None
                y = self.text_of(eng, st, ins, args[k], spec=':' + spec if spec else '')
            else:
                y = G.text(x)
            if y is None:
                return None
            e = G.comp(e, y)
        return e

    def lit(self, eng, v):
        i = eng.info.get(v)
        return i[1] if i and i[0] == 'fslit' else None

    def on_elem(self, eng, st, ins, cont, sym):
        p = self.cont(eng, st, cont)
        who = (('*', sym),)
        if p == 'families_':
            self.close_family(eng, st, ins)
            self.put(st, fam=who)
        elif p == 'samples':
            self.close_sample(eng, st, ins)
            self.put(st, smp=1)
        elif p == 'labels':
            self.close_label(eng, st, ins)
            self.put(st, lab=1)

    def cont(self, eng, st, a):
        if a[0] == '&' and isinstance(a[-1], str):
            return a[-1]
        p, v = self.path(eng, st, a) if a[0] == '&' else (None, a)
        return p[-1] if p and isinstance(p[-1], str) else None

    def on_more(self, eng, st, ins, cont, sym):
        c = self.cont(eng, st, cont)
        if c == 'samples':
            self.close_sample(eng, st, ins)
        if c == 'labels':
            self.close_label(eng, st, ins)
            self.put(st, pair=None)
        if c in ('samples', 'labels', 'families_'):
            self.loops[sym] = (c, cont)

    def on_branch(self, eng, st, ins, pred, taken):
        for m in subterms(pred):
            if m in self.loops and eng.truth(st, mk_eq(m)) is True:
                c, cont = self.loops[m]
                if c == 'samples':
                    self.scanned(eng, st, cont)
                elif c == 'labels':
                    self.put(st, lscan=1)
                else:
                    self.put(st, all=1)

    def scanned(self, eng, st, cont):
        fam = self.get(st, 'fam')
        if fam is None or cont[0] != '&' or same(norm(cont[1:-1]), fam):
            self.put(st, scan=1)

    def on_return(self, eng, st, ins, frame, val):
        # texts built in locals of the function that ends
        if len(st.frames) > 1:
            st.auto = tuple(x for x in st.auto if not (x[0][0] == 'sink' and x[0][1][0][:2] == ('v', frame.ctx)))

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        pt = fn.get('pt') or []
        if q == 'std::basic_format_string::basic_format_string':
            s = eng.sym(st, 'fs', ins, None)
            a = models.strip(args[0]) if args else None
            eng.info[s] = ('fslit', a[1] if a and a[0] == 's' else None)
            return [(st, s)]
        if q in ('std::format', 'std::vformat', 'std::format_to', 'std::print'):
            to = None
            if q != 'std::format' and q != 'std::vformat':
                to, args = args[0], args[1:]
            l = self.lit(eng, args[0])
            e = self.fmt(eng, st, ins, l, args[1:]) if isinstance(l, str) else None
            if to is None:
                return [(st, txt(e) if e is not None else eng.sym(st, 'text', ins, None))]
            if to[0] == '&':
                to = models.strip(eng.load(st, eng.loc_of(to)))
            loc = to[2][1:] if to[:2] == ('app', 'inserter') else None
            if loc is not None:
                self.emit(eng, st, ins, loc, e)
                eng.store(st, loc, txt(self.sink(st, loc)))
            return [(st, to)]
        if q == 'std::back_inserter' or 'back_insert_iterator' in q and b == 'back_insert_iterator' or 'ostreambuf_iterator' in q and args:
            return [(st, ('app', 'inserter', args[0]))]
        # streams
        if (q.startswith('std::operator<<') or q.startswith('std::basic_ostream::') or q.startswith('std::basic_ostringstream::')) and b in ('operator<<', 'write', 'put'):
            o = obj if obj is not None else args[0]
            a = args if obj is not None else args[1:]
            if o[0] != '&':
                return None
            ty = pt[-1] if pt else ''
            if a and 'endl' in repr(a[0]):
                self.emit(eng, st, ins, o[1:], G.text('\n'))
                return [(st, o)]
            if a and ('precision' in repr(a[0]) or 'setprecision' in repr(eng.info.get(a[0]))):
                return [(st, o)]
            char = 'char' in ty and '*' not in ty and '<' not in ty
            k, who = self.kind(eng, st, a[0])
            spec = ''
            if k == 'X' and not self.get(st, 'prec'):
                spec = ':.6g'
            self.emit(eng, st, ins, o[1:], self.text_of(eng, st, ins, a[0], char=char or b == 'put', spec=spec))
            return [(st, o)]
        if q == 'std::setprecision':
            if args and args[0][0] == 'c' and args[0][1] >= 17:
                self.put(st, prec=1)
            return [(st, ('app', 'precision'))]
        if b == 'precision' and args:
            if args[0][0] == 'c' and args[0][1] >= 17:
                self.put(st, prec=1)
            return [(st, C(6))]
        if b in ('str', 'view') and obj is not None and not args and ('stringstream' in q):
            return [(st, txt(self.sink(st, eng.loc_of(obj))))]
        # strings
        if q == 'std::basic_string::basic_string' and obj is not None:
            loc = eng.loc_of(obj)
            e = G.id
            if args and not pt[0].startswith('const std::allocator'):
                e = self.text_of(eng, st, ins, args[0])
            if e is None:
                return None
            if not args or elem(models.strip(eng.load(st, eng.loc_of(args[0])) if args[0][0] == '&' else args[0])) is not None or models.strip(args[0])[0] == 's':
                self.setsink(eng, st, loc, e)
                eng.store(st, loc, txt(e))
                return [(st, txt(e))]
            return None
        if q.startswith('std::basic_string::') and b in ('operator+=', 'append', 'push_back') and obj is not None and args:
            loc = eng.loc_of(obj)
            cur = elem(models.strip(eng.load(st, loc)))
            if cur is None:
                v = models.strip(eng.load(st, loc))
                cur = G.id if v[:2] == ('app', 'default') or v[0] == 'zero' else G.text(v[1]) if v[0] == 's' and isinstance(v[1], str) else None
            if cur is None:
                return None
            self.setsink(eng, st, loc, cur)
            char = pt and pt[0] in ('char', 'value_type') or b == 'push_back'
            self.emit(eng, st, ins, loc, self.text_of(eng, st, ins, args[0], char=char))
            eng.store(st, loc, txt(self.sink(st, loc)))
            return [(st, obj)]
        if q == 'std::operator+' and len(args) == 2:
            es = [self.text_of(eng, st, ins, a, char='char' in t and '*' not in t and '<' not in t) for a, t in zip(args, pt)]
            if None not in es:
                return [(st, txt(G.comp(es[0], es[1])))]
            return None
        if q in ('std::to_string',) and args:
            k, who = self.kind(eng, st, args[0]) if args[0][0] in ('&', 'init') else (None, None)
            if k == 'X':
                self.need(eng, st, ins, False, 'exact value', 'a metric value is written with fewer digits than it has')
                return [(st, txt(self.token(eng, st, ins, 'X', who)))]
            return None
        if '_Rb_tree' in q and b == 'operator++':
            self.close_label(eng, st, ins, True)
            self.put(st, pair=None)
            s = ('app', 'next')
            if obj is not None and obj[0] == '&':
                eng.store(st, eng.loc_of(obj), s)
            return [(st, obj)]
        if b == 'operator==' and len(args) == 2 and any('_Rb_tree' in t for t in pt):
            vs = [models.strip(eng.load(st, eng.loc_of(a)) if a[0] == '&' else a) for a in args]
            begin = [v[:2] == ('app', 'std::map::begin') or v[:2] == ('app', 'std::map::cbegin') for v in vs]
            if all(begin) and vs[0][2:] == vs[1][2:]:
                return [(st, ONE)]
            if any(begin) and ('app', 'next') in vs:
                return [(st, ZERO)]
            t = st.copy()
            self.put(st, lscan=1)
            return [(st, ONE), (t, ZERO)]
        if '_Rb_tree' in q and b in ('operator->', 'operator*') and obj is not None:
            return [(st, ('&', ('*', ('app', 'at', obj))))]
        if b in ('size', 'empty') and obj is not None and self.cont(eng, st, obj) == 'labels':
            t = st.copy()
            self.put(st, lscan=1)
            return [(st, ZERO if b == 'size' else ONE), (t, eng.sym(t, 'labels', ins, 'unsigned long') if b == 'size' else ZERO)]
        if b == 'size' and obj is not None and self.cont(eng, st, obj) == 'families_':
            self.put(st, all=1)
        if b in ('size', 'begin', 'cbegin', 'empty') and obj is not None and self.cont(eng, st, obj) == 'samples':
            if b != 'empty':
                self.scanned(eng, st, obj)
            return None
        if q.startswith('kio::') and args:
            # escaping and naming functions
            fs = [a for a, t in zip(args, pt) if a[0] == '&' or a[0] == 'init']
            if len(args) == 1 and obj is None and fs:
                k, who = self.kind(eng, st, args[0])
                if k in ('H', 'K', 'V', 'N') and 'basic_string' in (fn.get('rt') or ''):
                    self.esc.setdefault(k, {})[fn['id']] = fn
                    return [(st, txt(self.token(eng, st, ins, k, who)))]
                if k == 'T':
                    self.esc.setdefault('T', {})[fn['id']] = fn
                    return [(st, txt(self.token(eng, st, ins, 'T', who)))]
            elif len(args) == 1 and obj is None and args[0][0] not in ('&',):
                p, v = self.path(eng, st, args[0])
                if p and p[-1] == 'type':
                    self.esc.setdefault('T', {})[fn['id']] = fn
                    return [(st, txt(self.token(eng, st, ins, 'T', norm(p[:-1]))))]
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        self.done += 1
        self.close_family(eng, st, ins)
        self.need(eng, st, ins, bool(self.get(st, 'all')), 'every family', 'the text is returned before all families are written')
        v = models.strip(val) if val is not None else None
        if v is not None and v[0] == '&':
            v = models.strip(eng.load(st, eng.loc_of(v)))
        e = elem(v)
        if self.get(st, 'bad'):
            return
        self.need(eng, st, ins, e is not None and e[0] == 0, 'whole text', 'the text that is returned is not a complete exposition')


# ---------------------------------------------------------------- escaping, character by character
MAPS = {'V': {'\\': '\\\\', '"': '\\"', '\n': '\\n'}, 'H': {'\\': '\\\\', '\n': '\\n'}}


class Escape(R):
    """every character of the input becomes exactly its escaped form; auto: dict(ch=term, out=tuple, dirty, first)"""
    heap_volatile = False
    fast = True
    max_states = 80
    max_head = 40

    indexed = False

    def __init__(self, kind, par, label):
        self.kind, self.par, self.label = kind, par, label
        self.chars = 0

    def get(self, st, k, d=None):
        return dict(st.auto).get(k, d)

    def put(self, st, **kw):
        d = dict(st.auto)
        d.update(kw)
        st.auto = tuple(sorted(((k, v) for k, v in d.items() if v is not None), key=repr))

    def src(self, v):
        """is this value a character of the input"""
        v = models.strip(v)
        return v[0] in ('init', 'sym', 'app', 'hv') and mentions(v, self.par)

    def visit(self, eng, st, ins, ch, index=None):
        if ch == self.get(st, 'ch'):
            return
        self.close(eng, st, ins)
        self.chars += 1
        self.put(st, ch=ch, out=(), n=min(self.get(st, 'n', 0) + 1, 2), b=self.get(st, 'sink'), idx=index)

    def on_elem(self, eng, st, ins, cont, sym):
        c = cont if cont == self.par else eng.load(st, eng.loc_of(cont)) if cont[0] == '&' else cont
        if mentions(cont, self.par) or mentions(c, self.par):
            self.close(eng, st, ins)
            self.chars += 1
            ch = ('init', (('*', sym),), 0)
            self.put(st, ch=ch, out=(), n=min(self.get(st, 'n', 0) + 1, 2), b=self.get(st, 'sink'), idx=None)

    def on_head(self, eng, st, ins):
        self.close(eng, st, ins)

    def on_more(self, eng, st, ins, cont, sym):
        self.close(eng, st, ins)

    def on_load(self, eng, st, ins, loc, val):
        if loc and isinstance(loc[-1], tuple) and loc[-1][0] == '[]' and (mentions(('app', 'x') + tuple(y for y in loc if isinstance(y, tuple)), self.par)):
            i = loc[-1][1]
            if eng.numok(i):
                self.indexed = True
                self.visit(eng, st, ins, ('init', loc, 0), i)

    def on_branch(self, eng, st, ins, pred, taken):
        ch = self.get(st, 'ch')
        if ch is None:
            return
        if self.kind == 'K':
            if self.legal(eng, st, ch):
                self.put(st, ok=1)
        else:
            self.put(st, poss=tuple(x for x in MAPS[self.kind] if self.may(eng, st, ch, x)))

    def may(self, eng, st, ch, x):
        return eng.truth(st, mk_eq(sub(eng.ptr(ch), C(ord(x))))) is not False

    def close(self, eng, st, ins):
        ch = self.get(st, 'ch')
        if ch is None:
            return
        out = self.get(st, 'out', ())
        poss = self.get(st, 'poss')
        b = self.get(st, 'b')
        ok = self.get(st, 'ok')
        self.put(st, ch=None, out=None, idx=None, poss=None, ok=None, alpha=None, alnum=None, b=None)
        building = b
        if self.kind == 'K':
            if building:
                self.key(eng, st, ins, ch, out, ok)
            return
        M = MAPS[self.kind]
        poss = M if poss is None else poss
        if not building:
            if poss:
                self.put(st, dirty=1)
            return
        for x in M:
            if x in poss:
                self.need(eng, st, ins, self.same(out, M[x], ch), 'escapes ' + repr(x)[1:-1], 'the character %s is not escaped' % repr(x))
        if len(poss) == 0:
            self.need(eng, st, ins, out == (ch,), 'keeps characters', 'an ordinary character does not appear as it is')

    def same(self, out, want, ch):
        s = ''
        for o in out:
            if isinstance(o, str):
                s += o
            elif len(o) == 2 and o[0] == 'c':
                s += chr(o[1] & 255)
            elif o == ch:
                s += want[-1] if want[-1] in '\\"' else '\0'
            else:
                return False
        return s == want

    def key(self, eng, st, ins, ch, out, legal):
        self.need(eng, st, ins, len(out) == 1, 'one for one', 'a label name does not keep its length')
        for o in out:
            if isinstance(o, str):
                ok = len(o) == 1 and (o.isalnum() and not o[0].isdigit() or o == '_') and ord(o) < 128
            elif o[0] == 'c':
                ok = chr(o[1] & 255) == '_' or chr(o[1] & 255).isalpha()
            else:
                ok = o == ch and bool(legal)
            self.need(eng, st, ins, ok, 'legal label name', 'a label name can contain a character that is not allowed there')

    def legal(self, eng, st, ch):
        c = eng.ptr(ch)

        def rng(a, z):
            return eng.entails_le(st, sub(C(ord(a)), c)) and eng.entails_le(st, sub(c, C(ord(z))))
        if rng('a', 'z') or rng('A', 'Z') or eng.truth(st, mk_eq(sub(c, C(95)))) is True:
            return True
        for n, first in (('alpha', True), ('alnum', False)):
            if self.get(st, n) and (first or self.later(eng, st)):
                return True
        return rng('0', '9') and self.later(eng, st)

    def later(self, eng, st):
        i = self.get(st, 'idx')
        if i is not None:
            return eng.entails_le(st, sub(ONE, i))
        return self.get(st, 'n', 0) >= 2

    def add(self, st, x):
        o = self.get(st, 'out', ())
        if len(o) < 4:
            self.put(st, out=o + (x,))

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        pt = fn.get('pt') or []
        if q == 'std::basic_string::basic_string' and obj is not None and (not args or pt and 'allocator' in pt[0]):
            self.put(st, sink=1)
            return None
        if q.startswith('std::basic_string::') and b in ('operator+=', 'append', 'push_back') and obj is not None and args:
            self.put(st, sink=1)
            a = args[0]
            if a[0] == '&' and not (pt and '*' in pt[0]):
                a = eng.load(st, eng.loc_of(a))
            a = models.strip(a)
            self.add(st, a[1] if a[0] == 's' else a)
            if b == 'append' and len(args) == 2 and args[0][0] == 'c' and args[1][0] == 'c':
                self.put(st, out=self.get(st, 'out', ())[:-1])
                self.add(st, chr(args[1][1]) * args[0][1])
            return [(st, obj)]
        if q in ('isalpha', 'std::isalpha', 'isalnum', 'std::isalnum', 'isdigit', 'std::isdigit') and args:
            t = st.copy()
            self.put(st, **{'alpha' if 'alpha' in q else 'alnum': 1})
            return [(st, ONE), (t, ZERO)]
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        self.close(eng, st, ins)
        v = models.strip(val) if val is not None else None
        raw = v is not None and (v == ('init', (('*', self.par),), 0) or v == self.par or v[0] == '&' and mentions(v, self.par))
        if v is not None and v[0] in ('init',) and v[1] == (('*', self.par),):
            raw = True
        if self.indexed and not raw:
            n = models.size_val(eng, ('&', ('*', self.par)))
            n = eng.load(st, (('*', self.par), '#size'))
            cs = {a for f in st.facts for a in subterms(f) if isinstance(a, tuple) and a[:1] in (('phi',), ('old',))}
            k = self.get(st, 'n', 0)
            cs |= {C(k)} | ({C(i) for i in range(3, 48)} if k == 2 else set())
            self.need(eng, st, ins, any(le(eng, st, n, c) for c in cs if eng.numok(c)), 'to the end', 'the text can end before the last character')
        if raw:
            self.need(eng, st, ins, self.kind != 'K' and not self.get(st, 'dirty') and self.chars > 0, 'unescaped only if clean', 'text that needs escaping can be returned as it is')


class TypeName(R):
    label = 'exposition'
    heap_volatile = False

    def __init__(self):
        self.out = {}

    def on_exit(self, eng, st, ins, how, val):
        v = models.strip(val) if val is not None else None
        self.got = v[1] if v is not None and v[0] == 's' else None


def exposition(chk):
    fs = [f for f in fns(chk, 'kio::PrometheusTextSerializer::Serialize')]
    if not fs:
        raise CheckError('metrics: serializer not found')
    esc = {}
    for f in fs:
        r = Expo()
        chk.run(r, f, 20000, this=THIS)
        if not r.done:
            raise CheckError('metrics: serializer not analysed')
        for t in 'NHTKVX':
            chk.require('exposition', 'writes ' + {'N': 'names', 'H': 'help', 'T': 'types', 'K': 'label names', 'V': 'label values', 'X': 'values'}[t], f['file'], f['line'],
                        t in r.tokens, 'the serializer does not write ' + {'N': 'names', 'H': 'help texts', 'T': 'types', 'K': 'label names', 'V': 'label values', 'X': 'values'}[t])
        for k, d in r.esc.items():
            esc.setdefault(k, {}).update(d)
    for k, d in esc.items():
        for i in d:
            f = chk.prog.functions.get(i)
            if f is None or 'body' not in f:
                raise CheckError('metrics: no source for ' + i)
            if k in 'VHK':
                r = Escape(k, ('p', f['params'][0]['n']), 'exposition')
                chk.run(r, f, 30000, args=[('p', f['params'][0]['n'])])
                if not r.chars:
                    raise CheckError('metrics: %s: no character is looked at' % f['q'])
            if k == 'T':
                e = [e for e in chk.prog.enums.values() if e['q'] == 'kio::MetricType'] if hasattr(chk.prog, 'enums') else []
                got = {}
                for n, v in (('counter', 0), ('gauge', 1)):
                    r = TypeName()
                    r.got = None
                    chk.run(r, f, 200, args=[C(v)])
                    chk.require('exposition', 'type name', f['file'], f['line'], r.got == n, 'the type of a metric is written as %s instead of %s' % (r.got, n))


# ---------------------------------------------------------------- registry: locking, one snapshot, every collector once
LOCKS = ('std::lock_guard', 'std::unique_lock', 'std::scoped_lock')


class Auto(R):
    """typestate in a dictionary"""
    heap_volatile = False
    fast = True
    max_states = 60
    max_head = 30

    def get(self, st, k, d=None):
        return dict(st.auto).get(k, d)

    def put(self, st, **kw):
        d = dict(st.auto)
        d.update(kw)
        st.auto = tuple(sorted(((k, v) for k, v in d.items() if v is not None), key=repr))


def is_lock(q):
    return any(q.startswith(x + '::') or q.startswith(x + '<') or q == x for x in LOCKS)


class Reg(Auto):
    """the registry's list is used under its mutex; a scrape collects every collector once, into the snapshot it serializes"""
    label = 'registry'

    def __init__(self, f):
        self.f = f
        self.collected = self.done = self.pushed = 0

    def touches(self, a):
        return isinstance(a, tuple) and a[:1] == ('&',) and a[1:3] == (ROOT, 'collectors_')

    def use(self, eng, st, ins):
        self.need(eng, st, ins, bool(self.get(st, 'held')), 'under the mutex', 'the list of collectors is used without holding the mutex')

    def on_load(self, eng, st, ins, loc, val):
        if tuple(loc[:2]) == (ROOT, 'collectors_') and loc[-1] != '#data':
            self.use(eng, st, ins)

    def source(self, eng, st, cont):
        return self.touches(cont) or cont[0] == '&' and self.get(st, ('copy', cont[1:]))

    def on_more(self, eng, st, ins, cont, sym):
        if self.touches(cont):
            self.use(eng, st, ins)
        if self.source(eng, st, cont):
            self.close(eng, st, ins)
            self.put(st, more=sym)

    def on_branch(self, eng, st, ins, pred, taken):
        m = self.get(st, 'more')
        if m is not None and mentions(pred, m) and eng.truth(st, mk_eq(m)) is True:
            self.put(st, looped=1)

    def on_elem(self, eng, st, ins, cont, sym):
        if self.touches(cont):
            self.use(eng, st, ins)
        if self.source(eng, st, cont):
            self.close(eng, st, ins)
            self.put(st, el=(('*', sym),), n=0)

    def close(self, eng, st, ins):
        if self.get(st, 'el') is not None:
            self.need(eng, st, ins, self.get(st, 'n') == 1, 'every collector', 'a registered collector is not asked (exactly once) in a scrape')
            self.put(st, el=None, n=None)

    def on_dtor(self, eng, st, ins, addr, cls):
        if is_lock(cls or '') or any(x in (cls or '') for x in LOCKS):
            if self.get(st, 'lock') == addr:
                self.put(st, held=None, lock=None)
        return None

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if is_lock(q):
            if b in ('lock_guard', 'unique_lock', 'scoped_lock') and args:
                if args[0] == ('&', ROOT, 'mutex_'):
                    defer = any('defer' in t for t in (fn.get('pt') or []))
                    self.put(st, held=None if defer else 1, lock=obj)
            elif b == 'unlock':
                self.put(st, held=None)
            elif b == 'lock':
                self.put(st, held=1)
            return [(st, ('unk', 'lock', 0))]
        if q == 'std::mutex::lock' and obj == ('&', ROOT, 'mutex_'):
            self.put(st, held=1)
            return [(st, ('unk', 'void', 0))]
        if q == 'std::mutex::unlock' and obj == ('&', ROOT, 'mutex_'):
            self.put(st, held=None)
            return [(st, ('unk', 'void', 0))]
        if obj is not None and self.touches(obj):
            self.use(eng, st, ins)
            if b == 'size':
                self.put(st, looped=1)
            if b in ('push_back', 'emplace_back'):
                self.put(st, pushed=min(self.get(st, 'pushed', 0) + 1, 2))
                v = args[0]
                if v[0] == '&':
                    v = models.strip(eng.load(st, eng.loc_of(v)))
                self.need(eng, st, ins, mentions(v, self.par()) or self.is_par(args[0]), 'registers what it is given', 'something other than the given collector is added to the list')
            elif b in ('clear', 'pop_back', 'erase', 'resize', 'assign', 'swap', 'insert', 'operator='):
                self.need(eng, st, ins, False, 'keeps collectors', 'the list of registered collectors is changed')
        for a in args:
            if self.touches(a):
                self.use(eng, st, ins)
        if q.startswith('std::vector::vector') and obj is not None and args and self.touches(args[0]):
            self.put(st, **{})
            d = dict(st.auto)
            d[('copy', eng.loc_of(obj))] = 1
            st.auto = tuple(sorted(d.items(), key=repr))
            return None
        if q.endswith('Collector::Collect'):
            self.collected += 1
            el = self.get(st, 'el')
            if el is not None:
                on = repr(el[0][1]) in repr(obj) or obj[0] == '&' and repr(el[0][1]) in repr(eng.load(st, eng.loc_of(obj)))
                if on:
                    self.put(st, n=min(self.get(st, 'n') + 1, 2))
            self.need(eng, st, ins, not self.get(st, 'text'), 'collects before it serializes', 'a collector is asked after the snapshot was written')
            snap = args[0]
            ok = snap[0] == '&' and snap[1][:1] == ('v',)
            self.need(eng, st, ins, ok, 'fresh snapshot', 'a scrape collects into a snapshot that is not its own')
            cur = self.get(st, 'snap')
            self.need(eng, st, ins, cur is None or cur == snap, 'one snapshot', 'collectors are asked with different snapshots')
            self.put(st, snap=snap)
            return [(st, ('unk', 'void', 0))]
        if q.endswith('Serializer::Serialize'):
            self.close(eng, st, ins)
            s = eng.sym(st, 'text', ins, None)
            cur = self.get(st, 'snap')
            self.need(eng, st, ins, bool(self.get(st, 'looped')), 'every collector', 'a scrape writes its snapshot without asking the collectors')
            self.need(eng, st, ins, cur is None or cur == args[0], 'one snapshot', 'the snapshot that is written is not the one the collectors filled')
            self.put(st, text=s, ntext=1)
            return [(st, s)]
        return None

    def par(self):
        ps = self.f['params']
        return ('p', ps[0]['n']) if ps else ('p', '?')

    def is_par(self, a):
        return a[0] == '&' and len(a) == 2 and a[1][:1] == ('v',) and self.f['params'] and a[1][2] == self.f['params'][0]['id']

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        self.done += 1
        b = base_name(self.f['q'])
        if b == 'Register':
            n = self.get(st, 'pushed', 0)
            null = False
            self.need(eng, st, ins, n == 1 or n == 0 and self.refused(st), 'registered once', 'registering a collector does not add it to the list (exactly once)')
        if b == 'Scrape':
            v = models.strip(val) if val is not None else None
            if v is not None and v[0] == '&':
                v = models.strip(eng.load(st, eng.loc_of(v)))
            self.need(eng, st, ins, self.get(st, 'text') is not None and v == self.get(st, 'text'), 'returns the text', 'a scrape returns something other than the text of its snapshot')

    def refused(self, st):
        p = repr(self.par())
        i = repr(self.f['params'][0]['id']) if self.f['params'] else '?'
        return any(p in repr(f) or i in repr(f) for f in st.facts)


class Fam(Auto):
    """a family keeps the samples it is given"""
    label = 'family'

    def __init__(self, f):
        self.f = f
        self.pushed = 0
        self.pid = {p['n']: p['id'] for p in f['params']}

    def from_param(self, eng, st, a, name):
        """a value or place that is the parameter"""
        if a is None:
            return False
        v = models.strip(a)
        if v == ('p', name) or v[0] == 'init' and v[1] == (('*', ('p', name)),):
            return True
        if a[0] == '&':
            if len(a) == 2 and a[1][0] == 'v' and a[1][2] == self.pid.get(name):
                return True
            if len(a) == 2 and a[1] == ('*', ('p', name)):
                return True
            v = models.strip(eng.load(st, eng.loc_of(a)))
            if v == ('p', name) or mentions(v, ('p', name)):
                return True
        return mentions(v, ('p', name)) or self.get(st, ('src', v)) == name


class AddRule(Fam):
    numeric = True

    def par(self, t):
        for p in self.f['params']:
            if t in p['t']:
                return p['n']
        raise CheckError('metrics: MetricFamily::Add has no %s parameter' % t)

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if q.startswith('std::map::map') and obj is not None and args:
            for n in self.pid:
                if self.from_param(eng, st, args[0], n):
                    d = dict(st.auto)
                    d['lab', eng.loc_of(obj)] = n
                    st.auto = tuple(sorted(d.items(), key=repr))
            return None
        if obj is not None and obj[0] == '&' and obj[-1] == 'samples' and obj[1] == ROOT:
            if b in ('push_back', 'emplace_back'):
                self.pushed += 1
                self.put(st, n=min(self.get(st, 'n', 0) + 1, 2))
                lab, val = self.par('map'), self.par('double')
                size = models.size_val(eng, obj)
                size = eng.load(st, eng.loc_of(obj) + ('#size',))
                mx = eng.load(st, (ROOT, 'max_samples_'))
                self.need(eng, st, ins, lt(eng, st, size, mx), 'limit', 'a sample is added beyond the limit of the family')
                if len(args) == 2:
                    l, v = args[0], args[1]
                    okl = self.from_param(eng, st, l, lab)
                    okv = self.from_param(eng, st, v, val)
                else:
                    a = eng.loc_of(args[0])
                    okl = self.get(st, ('lab', a + ('labels',))) == lab or self.from_param(eng, st, ('&',) + a + ('labels',), lab)
                    okv = self.from_param(eng, st, eng.load(st, a + ('value',)), val)
                self.need(eng, st, ins, okl, 'labels', 'a sample is stored with labels other than the given ones')
                self.need(eng, st, ins, okv, 'value', 'a sample is stored with a value other than the given one')
                return [(st, ('unk', 'void', 0))]
            if b in ('clear', 'pop_back', 'erase', 'resize', 'assign', 'swap', 'insert', 'operator='):
                self.need(eng, st, ins, False, 'keeps samples', 'adding a sample changes the samples that were there')
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        n = self.get(st, 'n', 0)
        size = eng.load(st, (ROOT, 'samples', '#size'))
        mx = eng.load(st, (ROOT, 'max_samples_'))
        self.need(eng, st, ins, n == 1 or n == 0 and le(eng, st, mx, size), 'kept', 'a sample below the limit of the family is not stored (exactly once)')


class Build(Fam):
    """one family per name: the one that is there, or a new one made of the arguments"""
    PAR = {'name': 'name', 'help': 'help', 'type': 'type', 'max_samples_': 'max_samples'}

    def __init__(self, f):
        super().__init__(f)
        self.made = self.found = 0

    def owner(self, a):
        """the family whose name this is"""
        return a[:-1] if a[0] == '&' and a[-1] == 'name' else None

    def on_more(self, eng, st, ins, cont, sym):
        if cont[0] == '&' and cont[-1] == 'families_':
            self.missed(eng, st, ins)
            self.put(st, more=sym)

    def missed(self, eng, st, ins):
        if self.get(st, 'el') is not None:
            self.need(eng, st, ins, self.get(st, 'cmp') == 'ne', 'looks at every family', 'a family is passed over without comparing its name')
            self.put(st, el=None, cmp=None)

    def on_elem(self, eng, st, ins, cont, sym):
        if cont[0] == '&' and cont[-1] == 'families_':
            self.put(st, el=('&', ('*', sym)), cmp=None)

    def on_branch(self, eng, st, ins, pred, taken):
        m = self.get(st, 'more')
        if m is not None and mentions(pred, m):
            if eng.truth(st, mk_eq(m)) is True:
                self.put(st, all=1)

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if q.startswith('std::basic_string::basic_string') and obj is not None and args:
            for n in self.pid:
                if self.from_param(eng, st, args[0], n):
                    d = dict(st.auto)
                    d['src', eng.loc_of(obj)] = n
                    st.auto = tuple(sorted(d.items(), key=repr))
            return None
        if b in ('operator==', 'compare', 'operator!=') and (len(args) == 2 or obj is not None and len(args) == 1):
            x, y = (args if obj is None else (obj, args[0]))
            own = self.owner(x) or self.owner(y)
            other = y if self.owner(x) else x
            if own is not None and self.from_param(eng, st, other, 'name'):
                t = st.copy()
                eqv, nev = (ONE, ZERO) if b == 'operator==' else (ZERO, ONE)
                self.put(st, cmp='eq', hit=own)
                self.put(t, cmp='ne')
                return [(st, eqv), (t, nev)]
        if obj is not None and obj[0] == '&' and obj[-1] == 'families_' and obj[1] == ROOT and b in ('push_back', 'emplace_back'):
            self.missed(eng, st, ins)
            self.made += 1
            self.need(eng, st, ins, self.get(st, 'hit') is None and bool(self.get(st, 'all')), 'one family per name', 'a second family of the same name can be made')
            self.put(st, n=min(self.get(st, 'n', 0) + 1, 2))
            if len(args) == 1 and args[0][0] == '&':
                a = eng.loc_of(args[0])
                for fld, par in self.PAR.items():
                    p = [x for x in self.pid if x == par or x.rstrip('_') == par]
                    if not p:
                        raise CheckError('metrics: BuildFamily has no parameter ' + par)
                    l = a + (fld,)
                    ok = self.get(st, ('src', l)) == p[0] or self.from_param(eng, st, eng.load(st, l), p[0])
                    self.need(eng, st, ins, ok, 'keeps its ' + fld.strip('_'), 'a new family is not made of the given ' + par)
            return None
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        hit = self.get(st, 'hit')
        v = val
        if hit is not None:
            self.found += 1
            self.need(eng, st, ins, v == hit and not self.get(st, 'n'), 'returns the family', 'the family that is returned is not the one of the given name')
        else:
            last = False
            if v is not None and v[0] == '&' and len(v) > 2 and v[-2] == 'families_' and isinstance(v[-1], tuple):
                size = eng.load(st, (ROOT, 'families_', '#size'))
                last = eq(eng, st, add(v[-1][1], ONE), size) or eq(eng, st, v[-1][1], ('init', (ROOT, 'families_', '#size'), 0))
            self.need(eng, st, ins, self.get(st, 'n') == 1 and last or 'emplace' in repr(v), 'returns the family', 'the family that is returned is not the new one')


# ---------------------------------------------------------------- the worker collector
class Worker(Auto):
    """every counter of a worker appears under a name of its own, with the worker's id"""
    label = 'worker metrics'
    strict = True

    def __init__(self, f, fields):
        self.f, self.fields = f, fields
        self.done = 0
        self.out = {}

    def name_of(self, eng, st, a):
        v = models.strip(eng.load(st, eng.loc_of(a))) if a[0] == '&' else models.strip(a)
        return v[1] if v[0] == 's' else self.get(st, ('str', eng.loc_of(a))) if a[0] == '&' else None

    def field(self, v):
        """the counter a value is read from"""
        if any(x[:1] == ('trunc',) for x in subterms(v) if isinstance(x, tuple)):
            return None
        hits = [x for x in subterms(v) if isinstance(x, tuple) and (x[:1] == ('fld',) or x[:1] == ('init',))]
        for x in hits:
            n = x[2] if x[0] == 'fld' else x[1][-1]
            if n in self.fields:
                return n
        return None

    def on_call(self, eng, st, ins, fn, obj, args):
        q, b = qn(fn['q']), base_name(fn['q'])
        if q == 'kio::SyncWait':
            s = eng.sym(st, 'stats', ins, None)
            return [(st, s)]
        if q == 'std::to_string':
            v = models.strip(args[0])
            s = ('app', 'idtext') if v[0] in ('init', 'fld') and (v[1][-1] if v[0] == 'init' else v[2]) == 'id_' and 'worker_' in repr(v) else eng.sym(st, 'string', ins)
            return [(st, s)]
        if q.startswith('std::basic_string::basic_string') and obj is not None and args:
            v = models.strip(args[0])
            if v[0] == '&':
                v = models.strip(eng.load(st, eng.loc_of(v)))
            if v[0] == 's' or v == ('app', 'idtext'):
                eng.store(st, eng.loc_of(obj), v)
                return [(st, v)]
            return None
        if q.startswith('std::pair::pair') and obj is not None and len(args) == 2:
            vs = []
            for a in args:
                v = models.strip(a)
                if v[0] == '&':
                    v = models.strip(eng.load(st, eng.loc_of(v)))
                vs.append(v)
            if vs == [('s', 'worker_id'), ('app', 'idtext')]:
                self.put(st, lab=1)
            return None
        if q == 'kio::MetricSnapshot::BuildFamily':
            n = self.name_of(eng, st, args[0])
            if n is None:
                raise CheckError('metrics: the name of a family is not a constant at %s:%s' % (self.f['file'], ins.line))
            gen = self.get(st, 'gen', 0) + 1
            self.put(st, gen=gen, lab=None)
            self.need(eng, st, ins, bool(re.fullmatch('[a-zA-Z_:][a-zA-Z0-9_:]*', n)), 'legal name', 'the name of a metric is not a legal one: ' + n)
            t = models.strip(args[2])
            self.need(eng, st, ins, t in (ZERO, ONE) and (t == ZERO) == n.endswith('_total'), 'type', 'the metric %s has the wrong type' % n)
            return [(st, ('&', ('fam', n, gen)))]
        if q == 'kio::MetricFamily::Add':
            if obj[0] != '&' or obj[1][0] != 'fam':
                return None
            _, n, gen = obj[1]
            self.need(eng, st, ins, gen == self.get(st, 'gen'), 'live family', 'a family is used after another one was made (the reference may be dangling)')
            f = self.field(args[1])
            self.need(eng, st, ins, f is not None, 'counter', 'the value of %s is not one of the counters of the worker' % n)
            if f is not None:
                import difflib
                key = lambda x: difflib.SequenceMatcher(None, n.replace('kio_worker_', ''), x, autojunk=False).ratio()
                best = max(self.fields, key=key)
                self.need(eng, st, ins, key(f) >= key(best), 'right counter', 'the metric %s shows %s' % (n, f))
                if self.get(st, ('f', f)):
                    self.need(eng, st, ins, False, 'once', 'the counter %s is shown twice' % f)
                d = dict(st.auto)
                self.need(eng, st, ins, ('n', n) not in d, 'own name', 'two counters are shown under the name ' + n)
                d['f', f] = 1
                d['n', n] = 1
                st.auto = tuple(sorted(d.items(), key=repr))
            self.need(eng, st, ins, bool(self.get(st, 'lab')), 'worker label', 'the sample of %s is not labelled with the id of its worker' % n)
            self.put(st, lab=None)
            return [(st, ('unk', 'void', 0))]
        return None

    def on_exit(self, eng, st, ins, how, val):
        if how == 'exc':
            return
        self.done += 1
        for f in self.fields:
            self.need(eng, st, ins, bool(self.get(st, ('f', f))), 'shows ' + f, 'the counter %s is not exported' % f)


class Confined(Auto):
    """the counters of a worker are read on its own thread"""
    label = 'confinement'
    calls = 0

    def on_call(self, eng, st, ins, fn, obj, args):
        q = qn(fn['q'])
        if q == 'kio::io::SwitchToWorker::SwitchToWorker' and len(args) == 1:
            self.put(st, new=self.at(eng, st, args[0]))
        if q == 'kio::io::SwitchToWorker::await_resume':
            w = eng.load(st, eng.loc_of(obj) + ('worker_',)) if obj is not None and obj[0] == '&' else None
            self.put(st, on=w)
            return [(st, ('unk', 'void', 0))]
        if q == 'kio::io::SwitchToWorker::await_suspend' or q == 'kio::io::Worker::post':
            return [(st, ('unk', 'void', 0))]
        if q == 'kio::io::Worker::get_stats':
            self.calls += 1
            self.need(eng, st, ins, self.get(st, 'on') is not None and self.get(st, 'on') == self.at(eng, st, obj), 'on the worker', 'the counters of a worker are read without having switched to it')
            return [(st, eng.sym(st, 'stats', ins, None))]
        return None

    def at(self, eng, st, a):
        return a


def registry(chk):
    reg = [f for f in chk.prog.functions.values() if re.match(r'kio::MetricsRegistry<.*>::(Register|Scrape|Instance)$', f['q']) and 'body' in f]
    names = {base_name(f['q']) for f in reg}
    if not {'Register', 'Scrape', 'Instance'} <= names:
        raise CheckError('metrics: registry methods not found: %s' % sorted(names))
    for f in reg:
        b = base_name(f['q'])
        if b == 'Instance':
            r = TypeName()
            r.on_exit = lambda eng, st, ins, how, val: setattr(r, 'got', val)
            r.got = None
            chk.run(r, f, 200)
            tls = [i for i in ir.lower(f).instrs if getattr(i, 'op', None) == 'addr_glob' and i.x.get('tls')]
            chk.require('registry', 'one for all threads', f['file'], f['line'], not tls, 'every thread has a registry of its own')
            chk.require('registry', 'one instance', f['file'], f['line'], r.got is not None and r.got[0] == '&' and r.got[1][0] == 'glob' and len(r.got) == 2, 'the registry is not one object of the process')
            continue
        r = Reg(f)
        chk.run(r, f, 4000, this=THIS)
        if not r.done or b == 'Scrape' and not r.collected:
            chk.require('registry', 'every collector', f['file'], f['line'], False, 'a scrape does not ask the collectors')
    for q, R_ in (('kio::MetricFamily::Add', AddRule), ('kio::MetricSnapshot::BuildFamily', Build)):
        fs = fns(chk, q)
        if not fs:
            raise CheckError('metrics: %s not found' % q)
        for f in fs:
            r = R_(f)
            chk.run(r, f, 4000, this=THIS)
            if R_ is AddRule:
                chk.require('family', 'stores', f['file'], f['line'], r.pushed > 0, 'samples are not stored')
            else:
                chk.require('family', 'makes families', f['file'], f['line'], r.made > 0, 'families are not made')
                chk.require('family', 'finds families', f['file'], f['line'], r.found > 0, 'a family of the same name is not found again')
    n = 0
    for f in list(chk.prog.functions.values()):
        if 'body' not in f or f['q'].startswith('kio::io::Worker::') or not any(qn(c[0]['q']) == 'kio::io::Worker::get_stats' for c in ir.calls_of(f)):
            continue
        r = Confined()
        chk.run(r, f, 4000, this=THIS)
        n += r.calls
    if not n:
        raise CheckError('metrics: nobody reads the counters of a worker')
    c = chk.prog.cls('kio::io::WorkerStats')
    fields = [x['n'] for x in c['fields']]
    if len(fields) < 5:
        raise CheckError('metrics: WorkerStats not found')
    fs = [f for f in chk.prog.functions.values() if f['q'] == 'kio::io::WorkerMetricsCollector::Collect' and 'body' in f]
    if not fs:
        raise CheckError('metrics: worker collector not found')
    for f in fs:
        r = Worker(f, fields)
        chk.run(r, f, 20000, this=THIS)
        if not r.done:
            raise CheckError('metrics: worker collector not analysed')
