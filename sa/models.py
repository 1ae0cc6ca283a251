"""Abstract semantics of the library functions the sources use.

A model is called as m(eng, st, ins, fnref, obj, args) and returns a list of
(state, value) pairs, or None to fall back to the opaque treatment.  obj and
reference arguments are addresses; scalars and class prvalues are values.
"""
from .terms import *

MODELS = {}
CTORS = {}


def model(*names):
    def deco(f):
        for n in names:
            MODELS[n] = f
        return f
    return deco


def ctor(*names):
    def deco(f):
        for n in names:
            CTORS[n] = f
        return f
    return deco


def find(q):
    m = MODELS.get(q)
    if m is not None:
        return m
    if q.startswith('kio::alog::'):
        return nothing
    if q.startswith('__gnu_cxx::__normal_iterator::'):
        return MODELS.get('iter::' + q.rsplit('::', 1)[1])
    return None


def find_ctor(q, cls):
    return CTORS.get(q)


def nothing(eng, st, ins, fn, obj, args):
    return [(st, ('unk', 'void', 0))]


def isref(fn, i):
    pt = fn.get('pt') or []
    return i < len(pt) and pt[i].endswith('&')


def val(eng, st, fn, args, i):
    """the value of argument i, through a reference"""
    a = args[i]
    if isref(fn, i):
        return eng.load(st, eng.loc_of(a))
    return a


def content(eng, st, obj):
    return eng.load(st, eng.loc_of(obj))


def strip(v):
    while v[0] == 'rec':
        v = v[1]
    return v


def vt(v):
    return v


# ------------------------------------------------------------------ utilities
@model('std::move', 'std::forward', 'std::as_const', 'std::launder', 'std::addressof', '__builtin_addressof', 'std::to_underlying',
       '__builtin_expect', 'std::forward_like', 'std::ref')
def m_ident(eng, st, ins, fn, obj, args):
    if len(args) < 1:
        return None
    return [(st, args[0])]


@model('std::exchange')
def m_exchange(eng, st, ins, fn, obj, args):
    loc = eng.loc_of(args[0])
    old = eng.load(st, loc)
    new = val(eng, st, fn, args, 1)
    if new[0] in ('rec', 'app') and old[0] != 'rec' and strip(new) == ZERO:
        new = ZERO
    if strip(new)[:2] == ('app', 'default') or strip(new)[0] == 'zero':
        new = ZERO
    r = eng.rule.on_store(eng, st, ins, loc, new)
    eng.store(st, loc, r if r is not None else new)
    return [(st, old)]


@model('std::swap')
def m_swap(eng, st, ins, fn, obj, args):
    a, b = eng.loc_of(args[0]), eng.loc_of(args[1])
    x, y = eng.load(st, a), eng.load(st, b)
    for l, v in ((a, y), (b, x)):
        r = eng.rule.on_store(eng, st, ins, l, v)
        eng.store(st, l, r if r is not None else v)
    return [(st, ('unk', 'void', 0))]


def minmax(eng, st, ins, fn, args, lo):
    a, b = val(eng, st, fn, args, 0), val(eng, st, fn, args, 1)
    d = sub(a, b)
    if eng.entails_le(st, d):
        r = a if lo else b
    elif eng.entails_le(st, scale(d, -1)):
        r = b if lo else a
    elif getattr(eng.rule, 'split_min', False) and eng.numok(a) and eng.numok(b):
        out = []
        for s2, v in ((eng.assume(st.copy(), mk_le(d)), a if lo else b), (eng.assume(st.copy(), mk_le(add(scale(d, -1), ONE))), b if lo else a)):
            if s2 is None:
                continue
            if ins.x.get('rlv'):
                loc = (('v', s2.top.ctx, ('mm', ins.idx)),)
                eng.store(s2, loc, v)
                v = ('&',) + loc
            out.append((s2, v))
        return out
    else:
        s = eng.sym(st, 'min' if lo else 'max', ins)
        eng.info[s] = ('min' if lo else 'max', a, b)
        if a in eng.unsigned or b in eng.unsigned:
            eng.unsigned.add(s)
        st.facts = dict(st.facts)
        for x in (a, b):
            p = mk_le(sub(s, x) if lo else sub(x, s))
            if p[0] == 'le':
                st.facts[p] = True
        for k in ((1, 0) if lo else ()):
            if eng.entails_le(st, sub(C(k), a)) and eng.entails_le(st, sub(C(k), b)):
                p = mk_le(sub(C(k), s))
                if p[0] == 'le':
                    st.facts[p] = True
                break
        r = s
    if ins.x.get('rlv'):
        loc = (('v', st.top.ctx, ('mm', ins.idx)),)
        eng.store(st, loc, r)
        return [(st, ('&',) + loc)]
    return [(st, r)]


@model('std::min')
def m_min(eng, st, ins, fn, obj, args):
    return minmax(eng, st, ins, fn, args, True) if len(args) == 2 else None


@model('std::max')
def m_max(eng, st, ins, fn, obj, args):
    return minmax(eng, st, ins, fn, args, False) if len(args) == 2 else None


@model('std::source_location::current', 'std::source_location::line', 'std::source_location::file_name',
       'std::source_location::function_name', 'std::endl')
def m_unk(eng, st, ins, fn, obj, args):
    return [(st, ('unk', fn['q'], 0))]


@model('std::make_tuple', 'std::forward_as_tuple')
def m_mktuple(eng, st, ins, fn, obj, args):
    subs = tuple(((('t', i),), val(eng, st, fn, args, i)) for i in range(len(args)))
    return [(st, ('rec', ('app', 'tuple'), subs))]


@model('std::get')
def m_get(eng, st, ins, fn, obj, args):
    t, ta = (fn.get('pt') or [''])[0], (fn.get('ta') or [''])[0].rstrip('UL')
    if not ta.isdigit() or len(args) != 1:
        return None
    base = args[0] if args[0][0] == '&' else ('&', ('*', args[0]))
    if 'std::pair<' in t.split('<')[0] + '<':
        return [(st, base + (('first', 'second')[int(ta)],))] if int(ta) < 2 else None
    if 'std::tuple<' in t.split('<')[0] + '<':
        return [(st, base + (('t', int(ta)),))]
    return None


@model('std::stop_token::stop_requested', 'std::stop_source::stop_requested')
def m_stopreq(eng, st, ins, fn, obj, args):
    return [(st, eng.sym(st, 'stop_requested', ins, 'bool'))]


@model('std::make_pair')
def m_mkpair(eng, st, ins, fn, obj, args):
    subs = tuple(((n,), val(eng, st, fn, args, i)) for i, n in enumerate(('first', 'second')))
    return [(st, ('rec', ('app', 'pair'), subs))]


@ctor('std::pair::pair')
def c_pair(eng, st, ins, fn, addr, args):
    if ins.x.get('cp') or ins.x.get('mv') or len(args) != 2:
        return None
    base = eng.loc_of(addr)
    eng.store(st, base, ('app', 'pair'))
    for i, n in enumerate(('first', 'second')):
        eng.store(st, base + (n,), val(eng, st, fn, args, i))
    return [(st, None)]


@ctor('std::tuple::tuple')
def c_tuple(eng, st, ins, fn, addr, args):
    if ins.x.get('cp') or ins.x.get('mv'):
        return None
    base = eng.loc_of(addr)
    eng.store(st, base, ('app', 'tuple'))
    for i in range(len(args)):
        eng.store(st, base + (('t', i),), val(eng, st, fn, args, i))
    return [(st, None)]


@model('std::apply')
def m_apply(eng, st, ins, fn, obj, args):
    cl = eng.load(st, eng.loc_of(args[0]))
    base = args[1] if args[1][0] == '&' else ('&', ('*', args[1]))
    if cl[0] != 'closure':
        return None
    f = eng.prog.functions.get(cl[1])
    if f is None or 'body' not in f:
        return None
    tl = eng.loc_of(base)
    idx = sorted({l[len(tl)][1] for l in st.mem if len(l) > len(tl) and l[:len(tl)] == tl and isinstance(l[len(tl)], tuple) and l[len(tl)][0] == 't'})
    if not idx:
        v = eng.load(st, tl)
        if v[0] == 'rec':
            idx = sorted({p[0][1] for p, x in v[2] if isinstance(p[0], tuple) and p[0][0] == 't'})
    n = len(f['params'])
    if len(idx) != n:
        return None
    vals = []
    for i, prm in zip(idx, f['params']):
        a = base + (('t', i),)
        vals.append(a if prm['t'].endswith('&') else eng.load(st, eng.loc_of(a)))
    r = eng.do_inline(st, ins, f, eng.closure_this(cl), vals, 'call', closure=cl)
    if r is None:
        return None
    return ('states', r)


# ------------------------------------------------------------------ expected
def exp_has(v):
    v = strip(v)
    if v[0] == 'ok':
        return ONE
    if v[0] == 'err':
        return ZERO
    return ('has', v)


@model('std::expected::has_value', 'std::expected::operator bool')
def m_has(eng, st, ins, fn, obj, args):
    return [(st, exp_has(content(eng, st, obj)))]


@model('std::expected::value', 'std::expected::operator*', 'std::optional::value', 'std::optional::operator*')
def m_value(eng, st, ins, fn, obj, args):
    h = getattr(eng.rule, 'on_unwrap', None)
    if h:
        h(eng, st, ins, fn, obj, content(eng, st, obj))
    return [(st, obj + ('#val',) if obj[0] == '&' else ('&', ('*', obj), '#val'))]


@model('std::expected::operator->', 'std::optional::operator->')
def m_arrow(eng, st, ins, fn, obj, args):
    return m_value(eng, st, ins, fn, obj, args)


@model('std::expected::error')
def m_error(eng, st, ins, fn, obj, args):
    return [(st, obj + ('#err',) if obj[0] == '&' else ('&', ('*', obj), '#err'))]


@model('std::unexpected::error')
def m_unexerror(eng, st, ins, fn, obj, args):
    v = strip(content(eng, st, obj))
    return [(st, (obj if obj[0] == '&' else ('&', ('*', obj))) + ('#err',))]


@ctor('std::unexpected::unexpected')
def c_unex(eng, st, ins, fn, addr, args):
    if ins.x.get('cp') or ins.x.get('mv'):
        return None
    v = val(eng, st, fn, args, 0)
    return [(st, ('unex', v))]


@ctor('std::expected::expected')
def c_expected(eng, st, ins, fn, addr, args):
    if ins.x.get('cp') or ins.x.get('mv'):
        return None
    if not args:
        return [(st, ('ok', ('app', 'default', '')))]
    pt = (fn.get('pt') or [''])[0]
    v = val(eng, st, fn, args, 0)
    if strip(v)[0] == 'unex':
        return [(st, ('err', strip(v)[1]))]
    if 'std::unexpected<' in pt:
        return [(st, ('err', ('fld', v, '#err')))]
    if 'std::expected<' in pt:
        b = strip(v)
        if b[0] == 'err':
            return [(st, ('err', b[1]))]
        return [(st, v)]
    if 'unexpect_t' in pt:
        return [(st, ('err', val(eng, st, fn, args, 1) if len(args) > 1 else ('app', 'default', '')))]
    return [(st, ('ok', v))]


@model('std::expected::operator=')
def m_expassign(eng, st, ins, fn, obj, args):
    v = val(eng, st, fn, args, 0)
    b = strip(v)
    if b[0] == 'unex':
        v = ('err', b[1])
    elif 'std::expected<' not in (fn.get('pt') or [''])[0]:
        v = ('ok', v)
    loc = eng.loc_of(obj)
    r = eng.rule.on_store(eng, st, ins, loc, v)
    eng.store(st, loc, r if r is not None else v)
    return [(st, obj)]


@model('std::expected::value_or', 'std::optional::value_or')
def m_valueor(eng, st, ins, fn, obj, args):
    h = exp_has(content(eng, st, obj)) if 'expected' in fn['q'] else opt_has(content(eng, st, obj))
    out = []
    p = as_pred(h)
    s1 = eng.assume(st, p, True)
    if s1 is not None:
        out.append((s1.copy(), eng.load(s1, eng.loc_of(obj) + ('#val',))))
    s2 = eng.assume(st, p, False)
    if s2 is not None:
        out.append((s2.copy(), val(eng, s2, fn, args, 0)))
    return out


# ------------------------------------------------------------------ optional
def opt_has(v):
    v = strip(v)
    if v[0] == 'some':
        return ONE
    if v[0] in ('none', 'zero') or v[:2] == ('app', 'default'):
        return ZERO
    return ('has', v)


@model('std::optional::has_value', 'std::optional::operator bool')
def m_ohas(eng, st, ins, fn, obj, args):
    return [(st, opt_has(content(eng, st, obj)))]


@ctor('std::optional::optional')
def c_optional(eng, st, ins, fn, addr, args):
    if ins.x.get('cp') or ins.x.get('mv'):
        return None
    if not args or 'nullopt' in (fn.get('pt') or [''])[0]:
        return [(st, ('none',))]
    return [(st, ('some', val(eng, st, fn, args, 0)))]


@model('std::optional::operator=')
def m_oassign(eng, st, ins, fn, obj, args):
    pt = (fn.get('pt') or [''])[0]
    v = val(eng, st, fn, args, 0)
    if 'nullopt' in pt:
        v = ('none',)
    elif 'std::optional<' not in pt:
        v = ('some', v)
    eng.store(st, eng.loc_of(obj), v)
    return [(st, obj)]


@model('std::optional::reset')
def m_oreset(eng, st, ins, fn, obj, args):
    eng.store(st, eng.loc_of(obj), ('none',))
    return [(st, ('unk', 'void', 0))]


@model('std::optional::emplace')
def m_oemplace(eng, st, ins, fn, obj, args):
    v = val(eng, st, fn, args, 0) if len(args) == 1 else eng.sym(st, 'emplaced', ins)
    eng.store(st, eng.loc_of(obj), ('some', v))
    return [(st, obj + ('#val',))]


# ------------------------------------------------------------------ spans, views, containers
def size_of(eng, st, obj):
    loc = eng.loc_of(obj)
    v = eng.load(st, loc + ('#size',))
    if v[0] not in ('c', 'lin'):
        eng.unsigned.add(v)
    return v


def size_val(eng, v):
    s = strip(v)
    if s[0] == 'span':
        return s[2]
    r = eng.project(v, '#size')
    if r[0] not in ('c', 'lin'):
        eng.unsigned.add(r)
    return r


def data_val(eng, v):
    return eng.project(v, '#data')


CONT = ('std::vector', 'std::basic_string', 'std::basic_string_view', 'std::span', 'std::array', 'std::list', 'std::unordered_map',
        'std::map', 'std::deque', 'std::initializer_list', 'std::filesystem::path')


def reg(names, f):
    for c in CONT:
        for n in names:
            MODELS[c + '::' + n] = f


def m_size(eng, st, ins, fn, obj, args):
    if fn['q'].startswith('std::array<'):
        n = array_n(fn['q'])
        if n is not None:
            return [(st, C(n))]
    return [(st, size_of(eng, st, obj))]


def array_n(q):
    # std::array<T, N>::f
    d, i = 0, len('std::array<')
    last = None
    for j in range(i, len(q)):
        ch = q[j]
        if ch == '<':
            d += 1
        elif ch == '>':
            if d == 0:
                if last is None:
                    return None
                try:
                    return int(q[last + 1:j].strip().rstrip('UL'))
                except ValueError:
                    return None
            d -= 1
        elif ch == ',' and d == 0:
            last = j
    return None


def m_empty(eng, st, ins, fn, obj, args):
    return [(st, mk_eq(size_of(eng, st, obj)))]


def m_data(eng, st, ins, fn, obj, args):
    loc = eng.loc_of(obj)
    if fn['q'].startswith('std::array<'):
        return [(st, obj + ('#elems',) if obj[0] == '&' else ('&', ('*', obj), '#elems'))]
    return [(st, eng.load(st, loc + ('#data',)))]


def elem_addr(eng, st, ins, obj, i, fn):
    h = getattr(eng.rule, 'on_idx', None)
    if h:
        h(eng, st, ins, obj, i, fn)
    q = fn['q']
    if q.startswith(('std::vector', 'std::array', 'std::basic_string<', 'std::unordered_map', 'std::map', 'std::deque')):
        return (obj if obj[0] == '&' else ('&', ('*', obj))) + (('[]', i),)
    p = eng.load(st, eng.loc_of(obj) + ('#data',))
    a = add(eng.ptr(p), i) if eng.numok(p) else ('app', 'elem', p, i)
    return a if a[0] == '&' else ('&', ('*', a))


def m_index(eng, st, ins, fn, obj, args):
    i = val(eng, st, fn, args, 0)
    if 'map<' in fn['q']:
        h = getattr(eng.rule, 'on_map_index', None)
        if h:
            h(eng, st, ins, fn, obj, i)
        return [(st, obj + (('[]', i),) if obj[0] == '&' else ('&', ('*', obj), ('[]', i)))]
    return [(st, elem_addr(eng, st, ins, obj, i, fn))]


def m_front(eng, st, ins, fn, obj, args):
    h = getattr(eng.rule, 'on_nonempty', None)
    if h:
        h(eng, st, ins, fn, obj, size_of(eng, st, obj))
    return [(st, elem_addr(eng, st, ins, obj, ZERO, fn))]


def m_back(eng, st, ins, fn, obj, args):
    h = getattr(eng.rule, 'on_nonempty', None)
    if h:
        h(eng, st, ins, fn, obj, size_of(eng, st, obj))
    return [(st, elem_addr(eng, st, ins, obj, sub(size_of(eng, st, obj), ONE), fn))]


def m_subspan(eng, st, ins, fn, obj, args):
    h = getattr(eng.rule, 'on_subspan', None)
    off = val(eng, st, fn, args, 0) if args else ZERO
    v = content(eng, st, obj)
    n, p = size_val(eng, v), data_val(eng, v)
    if len(args) > 1:
        cnt = val(eng, st, fn, args, 1)
        if cnt[0] == 'c' and cnt[1] in (-1, 2 ** 64 - 1):
            cnt = sub(n, off)
    else:
        cnt = sub(n, off)
    name = fn['q'].rsplit('::', 1)[1]
    if name == 'first':
        off, cnt = ZERO, val(eng, st, fn, args, 0)
    elif name == 'last':
        cnt = val(eng, st, fn, args, 0)
        off = sub(n, cnt)
    elif name == 'substr' or 'basic_string' in fn['q']:
        if len(args) > 1 and not (cnt[0] == 'lin' or cnt[0] == 'c') or not eng.entails_le(st, sub(add(off, cnt), n)):
            if not eng.entails_le(st, sub(add(off, cnt), n)):
                s = eng.sym(st, 'substr', ins)
                eng.unsigned.add(s)
                eng.info[s] = ('call', fn['q'], obj, tuple(args))
                st.facts = dict(st.facts)
                for q in (mk_le(sub(s, cnt)), mk_le(sub(add(s, off), n))):
                    if q[0] == 'le':
                        st.facts[q] = True
                cnt = s
        if not fn['q'].startswith('std::basic_string_view'):
            return [(st, ('app', 'substr', v, off, cnt))]
    if h:
        h(eng, st, ins, fn, obj, n, off, cnt)
    return [(st, ('span', add(eng.ptr(p), off) if eng.numok(eng.ptr(p)) else p, cnt))]


def fresh_content(eng, st, ins, obj, size=None, keepdata=False, tag='mut'):
    loc = eng.loc_of(obj)
    s = eng.sym(st, tag, ins)
    n = size
    keep = None
    if keepdata:
        keep = eng.load(st, loc + ('#data',))
    eng.store(st, loc, s)
    if n is not None:
        eng.store(st, loc + ('#size',), n)
    if keep is not None:
        eng.store(st, loc + ('#data',), keep)
    return s


def mut(name):
    def m(eng, st, ins, fn, obj, args):
        h = getattr(eng.rule, 'on_mutate', None)
        vals = [val(eng, st, fn, args, i) for i in range(len(args))]
        if h:
            h(eng, st, ins, fn, obj, name, vals, args)
        n = size_of(eng, st, obj)
        if name == 'pop_back' or name == 'pop_front':
            hh = getattr(eng.rule, 'on_nonempty', None)
            if hh:
                hh(eng, st, ins, fn, obj, n)
        new = None
        if name in ('push_back', 'emplace_back', 'push_front', 'emplace_front'):
            new = add(n, ONE)
        elif name in ('pop_back', 'pop_front'):
            new = sub(n, ONE)
        elif name == 'resize' and vals:
            new = vals[0]
        elif name == 'clear':
            new = ZERO
        elif name == 'append' and 'basic_string' in fn['q']:
            new = None
        hm = getattr(eng.rule, 'on_mutated', None)
        odata = eng.load(st, eng.loc_of(obj) + ('#data',)) if hm else None
        s = fresh_content(eng, st, ins, obj, new, keepdata=False, tag='mut:' + name)
        eng.info[s] = ('mut', name, obj, tuple(vals))
        if hm:
            hm(eng, st, ins, fn, obj, name, vals, odata, n)
        if name in ('emplace_back',):
            return [(st, obj + (('[]', n),) if obj[0] == '&' else ('&', ('*', obj), ('[]', n)))]
        if name in ('append', 'assign', '+='):
            return [(st, obj)]
        return [(st, s)]
    return m


def m_reserve(eng, st, ins, fn, obj, args):
    h = getattr(eng.rule, 'on_mutate', None)
    if h:
        h(eng, st, ins, fn, obj, 'reserve', [val(eng, st, fn, args, 0)] if args else [], args)
    loc = eng.loc_of(obj)
    hm = getattr(eng.rule, 'on_mutated', None)
    odata = eng.load(st, loc + ('#data',)) if hm else None
    d = eng.sym(st, 'realloc', ins)
    eng.store(st, loc + ('#data',), d)
    if hm:
        hm(eng, st, ins, fn, obj, 'reserve', [val(eng, st, fn, args, 0)] if args else [], odata, size_of(eng, st, obj))
    return [(st, ('unk', 'void', 0))]


def m_maxsize(eng, st, ins, fn, obj, args):
    return [(st, C(2 ** 63 - 1))]


reg(['max_size'], m_maxsize)
reg(['size', 'length'], m_size)
reg(['empty'], m_empty)
reg(['data', 'c_str'], m_data)
for c in ('std::vector', 'std::basic_string', 'std::basic_string_view', 'std::span', 'std::array', 'std::deque'):
    MODELS[c + '::operator[]'] = m_index
    MODELS[c + '::at'] = m_index
    MODELS[c + '::front'] = m_front
    MODELS[c + '::back'] = m_back
MODELS['std::list::front'] = m_front
MODELS['std::list::back'] = m_back
for n in ('subspan', 'first', 'last'):
    MODELS['std::span::' + n] = m_subspan
MODELS['std::basic_string_view::substr'] = m_subspan
MODELS['std::basic_string::substr'] = m_subspan
for n in ('push_back', 'emplace_back', 'pop_back', 'resize', 'clear', 'insert', 'erase', 'append', 'assign', 'push_front', 'emplace_front',
          'pop_front', 'emplace', 'swap', 'splice'):
    for c in ('std::vector', 'std::basic_string', 'std::list', 'std::deque'):
        MODELS[c + '::' + n] = mut(n)
MODELS['std::basic_string::operator+='] = mut('+=')
MODELS['std::vector::reserve'] = m_reserve
MODELS['std::basic_string::reserve'] = m_reserve
MODELS['std::vector::shrink_to_fit'] = m_reserve
MODELS['std::basic_string::operator basic_string_view'] = lambda eng, st, ins, fn, obj, args: [
    (st, ('span', eng.load(st, eng.loc_of(obj) + ('#data',)), size_of(eng, st, obj)))]


@model('std::basic_string_view::operator=', 'std::span::operator=')
def m_viewassign(eng, st, ins, fn, obj, args):
    v = val(eng, st, fn, args, 0)
    loc = eng.loc_of(obj)
    r = eng.rule.on_store(eng, st, ins, loc, v)
    eng.store(st, loc, r if r is not None else v)
    return [(st, obj)]


@model('std::basic_string::operator=', 'std::vector::operator=', 'std::function::operator=', 'std::array::operator=',
       'std::list::operator=', 'std::unordered_map::operator=', 'std::map::operator=', 'std::variant::operator=',
       'std::chrono::time_point::operator=', 'std::filesystem::path::operator=', 'std::stop_token::operator=', 'sockaddr_storage::operator=',
       'std::pair::operator=', 'std::tuple::operator=')
def m_assign(eng, st, ins, fn, obj, args):
    v = val(eng, st, fn, args, 0)
    pt = (fn.get('pt') or [''])[0]
    loc = eng.loc_of(obj)
    r = eng.rule.on_store(eng, st, ins, loc, v)
    eng.store(st, loc, r if r is not None else v)
    if pt.endswith('&&') and args[0][0] == '&':
        eng.moved_from(st, ins, eng.loc_of(args[0]), pt[:-2].strip(), v)
    return [(st, obj)]


@ctor('std::span::span')
def c_span(eng, st, ins, fn, addr, args):
    pts = fn.get('pt') or []
    if not args:
        return [(st, ('span', ZERO, ZERO))]
    if ins.x.get('cp') or ins.x.get('mv'):
        return None
    if len(args) == 2:
        a, b = val(eng, st, fn, args, 0), val(eng, st, fn, args, 1)
        return [(st, ('span', a, b))]
    pt = pts[0] if pts else ''
    at = (ins.x.get('at') or [''])[0] or ''
    import re
    m = re.search(r'\(&\)\[(\d+)\]|\[(\d+)\]', pt) or re.search(r'\[(\d+)\]', at)
    if m:
        n = int(m.group(1) or (m.group(2) if m.lastindex and m.lastindex > 1 else m.group(1)))
        return [(st, ('span', args[0], C(n)))]
    m = re.search(r'std::array<.*?, *(\d+)', pt) or re.search(r'std::array<.*?, *(\d+)', at)
    if m:
        return [(st, ('span', (args[0] if args[0][0] == '&' else ('&', ('*', args[0]))) + ('#elems',), C(int(m.group(1)))))]
    v = eng.load(st, eng.loc_of(args[0])) if isref(fn, 0) else args[0]
    if strip(v)[0] == 'span':
        return [(st, strip(v))]
    return [(st, ('span', data_val(eng, v), size_val(eng, v)))]


@ctor('std::basic_string_view::basic_string_view')
def c_view(eng, st, ins, fn, addr, args):
    if not args:
        return [(st, ('span', ZERO, ZERO))]
    if ins.x.get('cp') or ins.x.get('mv'):
        return None
    if len(args) == 2:
        a, b = val(eng, st, fn, args, 0), val(eng, st, fn, args, 1)
        if a[0] == 's' and b[0] == 'c' and b[1] == len(a[1]):
            return [(st, a)]
        return [(st, ('span', a, b))]
    a = args[0]
    if a[0] == 's':
        return [(st, a)]
    n = ('app', 'strlen', a)
    eng.unsigned.add(n)
    return [(st, ('span', a, n))]


@ctor('std::basic_string::basic_string')
def c_string(eng, st, ins, fn, addr, args):
    if ins.x.get('cp') or ins.x.get('mv'):
        return None
    pts = fn.get('pt') or []
    if not args or (len(args) == 1 and 'allocator' in (pts[0] if pts else '')):
        return [(st, ('app', 'default', 'std::basic_string'))]
    v = val(eng, st, fn, args, 0)
    if v[0] == 's':
        return [(st, v)]
    s = eng.sym(st, 'string', ins)
    vals = tuple(val(eng, st, fn, args, i) for i in range(len(args)))
    eng.info[s] = ('string', vals)
    loc = eng.loc_of(addr)
    eng.store(st, loc, s)
    if len(args) >= 2 and 'char' in (pts[0] if pts else '') and (pts[0] if pts else '').endswith('*') and vals[1][0] != 'unk' and 'allocator' not in pts[1]:
        eng.store(st, loc + ('#size',), vals[1])
    elif strip(v)[0] == 'span':
        eng.store(st, loc + ('#size',), strip(v)[2])
    elif len(args) >= 2 and pts[0] in ('size_type', 'unsigned long'):
        eng.store(st, loc + ('#size',), vals[0])
    return [(st, None)]


@ctor('std::vector::vector')
def c_vector(eng, st, ins, fn, addr, args):
    if ins.x.get('cp') or ins.x.get('mv'):
        return None
    pts = fn.get('pt') or []
    if not args or 'allocator' in (pts[0] if pts else ''):
        return [(st, ('app', 'default', 'std::vector'))]
    p0 = pts[0] if pts else ''
    if p0 in ('size_type', 'unsigned long', 'std::size_t', 'std::vector::size_type') or p0.endswith('size_type'):
        s = eng.sym(st, 'vector', ins)
        loc = eng.loc_of(addr)
        eng.store(st, loc, s)
        eng.store(st, loc + ('#size',), args[0])
        eng.info[s] = ('vector', tuple(args))
        return [(st, None)]
    return None


# ------------------------------------------------------------------ smart pointers
PTRS = ('std::unique_ptr', 'std::shared_ptr', 'std::__shared_ptr_access', 'std::__shared_ptr')


def pcontent(eng, st, obj):
    return content(eng, st, obj)


def m_pget(eng, st, ins, fn, obj, args):
    return [(st, pcontent(eng, st, obj))]


def m_pstar(eng, st, ins, fn, obj, args):
    v = pcontent(eng, st, obj)
    return [(st, v if v[0] == '&' else ('&', ('*', v)))]


def m_pbool(eng, st, ins, fn, obj, args):
    v = pcontent(eng, st, obj)
    return [(st, as_pred(eng.ptr(v)) if strip(v)[0] not in ('zero',) and v[:2] != ('app', 'default') else ZERO)]


def m_prelease(eng, st, ins, fn, obj, args):
    v = pcontent(eng, st, obj)
    eng.store(st, eng.loc_of(obj), ZERO)
    return [(st, v)]


def m_preset(eng, st, ins, fn, obj, args):
    loc = eng.loc_of(obj)
    eng.store(st, loc, args[0] if args else ZERO)
    return [(st, ('unk', 'void', 0))]


def m_passign(eng, st, ins, fn, obj, args):
    v = val(eng, st, fn, args, 0)
    pt = (fn.get('pt') or [''])[0]
    if 'nullptr_t' in pt:
        v = ZERO
    loc = eng.loc_of(obj)
    r = eng.rule.on_store(eng, st, ins, loc, v)
    eng.store(st, loc, r if r is not None else v)
    if pt.endswith('&&') and args[0][0] == '&':
        eng.store(st, eng.loc_of(args[0]), ZERO)
    return [(st, obj)]


for c in PTRS:
    MODELS[c + '::get'] = m_pget
    MODELS[c + '::operator->'] = m_pget
    MODELS[c + '::operator*'] = m_pstar
    MODELS[c + '::operator bool'] = m_pbool
    MODELS[c + '::release'] = m_prelease
    MODELS[c + '::reset'] = m_preset
    MODELS[c + '::operator='] = m_passign


def c_ptr(eng, st, ins, fn, addr, args):
    pts = fn.get('pt') or []
    p0 = pts[0] if pts else ''
    if not args or 'nullptr_t' in p0:
        return [(st, ZERO)]
    v = val(eng, st, fn, args, 0)
    if p0.endswith('&&') and args[0][0] == '&' and ('unique_ptr' in p0 or 'shared_ptr' in p0):
        eng.store(st, eng.loc_of(args[0]), ZERO)
    if v[:2] == ('app', 'default'):
        v = ZERO
    return [(st, v)]


CTORS['std::unique_ptr::unique_ptr'] = c_ptr
CTORS['std::shared_ptr::shared_ptr'] = c_ptr


@model('std::make_unique', 'std::make_shared')
def m_make(eng, st, ins, fn, obj, args):
    s = eng.sym(st, 'heap', ins)
    vals = tuple(val(eng, st, fn, args, i) for i in range(len(args)))
    eng.info[s] = ('make', fn.get('rt'), vals)
    h = getattr(eng.rule, 'on_make', None)
    if h:
        h(eng, st, ins, fn, s, vals)
    for a, t in zip(args, fn.get('pt') or []):
        # the contents of a moved-from string or vector are gone
        if t.endswith('&&') and not t.startswith('const ') and a[0] == '&' and any(x in t for x in ('basic_string<', 'std::string', 'std::vector<')):
            eng.store(st, eng.loc_of(a), ('mvd', val(eng, st, fn, args, args.index(a))))
    return [(st, ('&', ('*', s)))]


# ------------------------------------------------------------------ atomics
def m_aload(eng, st, ins, fn, obj, args):
    s = eng.sym(st, 'atomic', ins, ins.x.get('t'))
    eng.info[s] = ('atomic', obj)
    return [(st, s)]


def m_astore(eng, st, ins, fn, obj, args):
    loc = eng.loc_of(obj)
    v = args[0]
    eng.rule.on_store(eng, st, ins, loc, v)
    return [(st, ('unk', 'void', 0))]


def m_acas(eng, st, ins, fn, obj, args):
    s = eng.sym(st, 'cas', ins)
    eng.info[s] = ('cas', obj, tuple(args))
    # the expected operand is overwritten on failure
    a = args[0]
    out = []
    ok = st.copy()
    ok.facts = {**ok.facts, mk_eq(s): False}
    out.append((ok, s))
    bad = st.copy()
    bad.facts = {**bad.facts, mk_eq(s): True}
    v = ('sym', 'casval', bad.top.ctx, ins.idx)
    eng.info[v] = ('atomic', obj)
    if a[0] == '&':
        eng.retire(bad, v)
        eng.store(bad, eng.loc_of(a), v)
    out.append((bad, s))
    return out


for c in ('std::atomic', 'std::__atomic_base', 'std::atomic_flag'):
    for n in ('load', 'operator id', 'operator bool', 'operator unsigned long', 'operator int', 'exchange', 'fetch_add', 'fetch_sub', 'fetch_or',
              'fetch_and', 'test_and_set', 'test', 'operator++', 'operator--', 'operator+=', 'operator-='):
        MODELS[c + '::' + n] = m_aload
    for n in ('store', 'operator='):
        MODELS[c + '::' + n] = m_astore
    for n in ('clear', 'notify_one', 'notify_all', 'wait'):
        MODELS[c + '::' + n] = nothing
    for n in ('compare_exchange_strong', 'compare_exchange_weak'):
        MODELS[c + '::' + n] = m_acas
MODELS['std::atomic_thread_fence'] = nothing


@ctor('std::atomic::atomic')
def c_atomic(eng, st, ins, fn, addr, args):
    return [(st, args[0] if args else ZERO)]


# ------------------------------------------------------------------ coroutine handles
@ctor('std::coroutine_handle::coroutine_handle')
def c_handle(eng, st, ins, fn, addr, args):
    if ins.x.get('cp') or ins.x.get('mv'):
        return None
    return [(st, ZERO)]


@model('std::coroutine_handle::operator=')
def m_hassign(eng, st, ins, fn, obj, args):
    pt = (fn.get('pt') or [''])[0]
    v = ZERO if 'nullptr_t' in pt else val(eng, st, fn, args, 0)
    loc = eng.loc_of(obj)
    r = eng.rule.on_store(eng, st, ins, loc, v)
    eng.store(st, loc, r if r is not None else v)
    return [(st, obj)]


def hval(eng, st, obj):
    v = content(eng, st, obj)
    if strip(v)[:2] == ('app', 'default') or strip(v)[0] == 'zero':
        return ZERO
    return v


@model('std::coroutine_handle::operator bool')
def m_hbool(eng, st, ins, fn, obj, args):
    v = hval(eng, st, obj)
    if v[0] == 'handle':
        return [(st, ONE)]
    return [(st, as_pred(v) if eng.numok(v) else ('has', v))]


@model('std::coroutine_handle::operator coroutine_handle', 'std::coroutine_handle::address')
def m_hconv(eng, st, ins, fn, obj, args):
    return [(st, hval(eng, st, obj))]


@model('std::coroutine_handle::from_address')
def m_hfrom(eng, st, ins, fn, obj, args):
    return [(st, args[0])]


@model('std::coroutine_handle::from_promise')
def m_hprom(eng, st, ins, fn, obj, args):
    return [(st, ('app', 'handle_of', args[0]))]


@model('std::coroutine_handle::promise')
def m_promise(eng, st, ins, fn, obj, args):
    v = hval(eng, st, obj)
    if v[:2] == ('app', 'handle_of'):
        return [(st, v[2])]
    return [(st, ('&', ('*', ('app', 'promise', v))))]


@model('std::coroutine_handle::done')
def m_done(eng, st, ins, fn, obj, args):
    s = eng.sym(st, 'done', ins)
    eng.info[s] = ('done', hval(eng, st, obj))
    return [(st, s)]


@model('std::operator==', 'std::coroutine_handle::operator==', 'std::__n4861::operator==')
def m_heq(eng, st, ins, fn, obj, args):
    pt = fn.get('pt') or []
    if len(args) == 2 and obj is None and len(pt) == 2 and any('nullptr_t' in t for t in pt):
        i = 1 if 'nullptr_t' in pt[0] else 0
        if any(x in pt[i] for x in ('unique_ptr<', 'shared_ptr<')) and args[i][0] == '&':
            return [(x, neg(v)) for x, v in m_pbool(eng, st, ins, fn, args[i], [])]
    if 'coroutine_handle' not in (pt[0] if pt else '') and 'coroutine_handle' not in (fn.get('cls') or ''):
        return None
    if obj is not None:
        vs = [hval(eng, st, obj), hv_arg(eng, st, fn, args, 0)]
    elif len(args) == 2:
        vs = [hv_arg(eng, st, fn, args, 0), hv_arg(eng, st, fn, args, 1)]
    else:
        return None
    a, b = vs
    if b == ZERO or a == ZERO:
        v = a if b == ZERO else b
        if v == ZERO:
            return [(st, ONE)]
        if v[0] == 'handle':
            return [(st, ZERO)]
        return [(st, neg(as_pred(v if eng.numok(v) else ("has", v))))]
    if a == b:
        return [(st, ONE)]
    if eng.numok(a) and eng.numok(b):
        return [(st, mk_eq(sub(a, b)))]
    return None


def hv_arg(eng, st, fn, args, i):
    v = val(eng, st, fn, args, i)
    if strip(v)[:2] == ('app', 'default') or strip(v)[0] == 'zero':
        return ZERO
    return v


@model('std::noop_coroutine')
def m_noop(eng, st, ins, fn, obj, args):
    return [(st, ('app', 'noop_coroutine'))]


@model('__errno_location')
def m_errno(eng, st, ins, fn, obj, args):
    return [(st, ('&', ('glob', 'errno')))]


@model('std::strerror', 'strerror')
def m_strerror(eng, st, ins, fn, obj, args):
    return [(st, ('app', 'strerror') + tuple(args))]


@model('htons', 'ntohs', 'htonl', 'ntohl')
def m_hton(eng, st, ins, fn, obj, args):
    return [(st, ('app', fn['q']) + tuple(args))]


@model('std::byteswap')
def m_bswap(eng, st, ins, fn, obj, args):
    return [(st, ('app', 'byteswap', args[0]))]


# iterators over contiguous memory: value is a pointer
MODELS['std::vector::begin'] = MODELS['std::span::begin'] = MODELS['std::basic_string::begin'] = \
    lambda eng, st, ins, fn, obj, args: [(st, eng.load(st, eng.loc_of(obj) + ('#data',)))]


def m_end(eng, st, ins, fn, obj, args):
    d = eng.load(st, eng.loc_of(obj) + ('#data',))
    n = size_of(eng, st, obj)
    if not eng.numok(d) or not eng.numok(n):
        return None
    return [(st, add(eng.ptr(d), n))]


MODELS['std::vector::end'] = MODELS['std::span::end'] = MODELS['std::basic_string::end'] = m_end
MODELS['std::vector::cbegin'] = MODELS['std::vector::begin']
MODELS['std::vector::cend'] = m_end


@model('iter::operator+', 'iter::operator-')
def m_iterop(eng, st, ins, fn, obj, args):
    v = content(eng, st, obj)
    n = val(eng, st, fn, args, 0)
    if not eng.numok(v) or not eng.numok(n):
        return None
    return [(st, add(eng.ptr(v), n, 1 if fn['q'].endswith('+') else -1))]


@model('iter::operator*')
def m_iterstar(eng, st, ins, fn, obj, args):
    v = content(eng, st, obj)
    return [(st, v if v[0] == '&' else ('&', ('*', v)))]


@model('iter::operator->')
def m_iterarrow(eng, st, ins, fn, obj, args):
    return [(st, content(eng, st, obj))]


@ctor('__gnu_cxx::__normal_iterator::__normal_iterator')
def c_iter(eng, st, ins, fn, addr, args):
    return [(st, val(eng, st, fn, args, 0))] if args else None


@model('std::format', 'std::vformat', 'std::to_string')
def m_format(eng, st, ins, fn, obj, args):
    s = eng.sym(st, 'string', ins)
    eng.info[s] = ('call', fn['q'], obj, tuple(args), tuple(val(eng, st, fn, args, i) for i in range(len(args))))
    return [(st, s)]


@model('std::print', 'std::println')
def m_print(eng, st, ins, fn, obj, args):
    return [(st, ('unk', 'void', 0))]


@model('std::operator<<')
def m_shl(eng, st, ins, fn, obj, args):
    return [(st, args[0])]


@model('std::basic_ostream::operator<<', 'std::basic_ostream::write', 'std::basic_ostream::flush')
def m_shl2(eng, st, ins, fn, obj, args):
    return [(st, obj)]


@model('__gnu_cxx::operator==', '__gnu_cxx::operator!=')
def m_itereq(eng, st, ins, fn, obj, args):
    a, b = (eng.ptr(content(eng, st, x)) if x[0] == '&' else eng.ptr(x) for x in args)
    neg = fn['q'].endswith('!=')
    if not eng.numok(a) or not eng.numok(b):
        return None
    p = mk_eq(sub(a, b))
    out = []
    for val in (True, False):
        s = eng.assume(st.copy(), p, val)
        if s is not None:
            out.append((s, ONE if val != neg else ZERO))
    return out
