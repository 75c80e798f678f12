"""Models of the parts of the C++ standard library that the analysed code uses.

Containers are ordered sequences, iterators are pointers to elements,
algorithms are summarised loops over their callables."""
from . import core as c
from .core import A, C, T, TRUE, FALSE, ZERO, ONE, G, _mk, ge0, gt0, eq0, lt, le, eq, not_, and_, or_, ite, ind

SEQ = ('std::vector', 'std::array', 'std::initializer_list', 'std::basic_string', 'std::basic_string_view',
       'std::deque', 'std::list', 'std::span', 'std::valarray')
MAPS = ('std::map', 'std::unordered_map', 'std::set', 'std::unordered_set', 'std::multimap')
_base = {}


def base(q):
    """qualified name without template arguments"""
    r = _base.get(q)
    if r is not None:
        return r
    out = []
    depth = 0
    i = 0
    n = len(q)
    while i < n:
        if q.startswith('operator', i) and (i == 0 or q[i - 1] == ':') and depth == 0:
            out.append(q[i:])
            break
        ch = q[i]
        if ch == '<':
            depth += 1
        elif ch == '>':
            depth -= 1
        elif depth == 0:
            out.append(ch)
        i += 1
    r = ''.join(out)
    if 'operator' in r:
        k = r.index('operator')
        op = r[k + 8:]
        # strip template arguments of the operator itself
        for o in ('<<', '<=>', '<=', '<', '->', '>>', '>=', '>', '()', '[]', '==', '!=', '+=', '-=', '*=', '/=', '++', '--',
                  '+', '-', '*', '/', '=', '!', '&&', '||'):
            if op.startswith(o):
                op = o
                break
        r = r[:k] + 'operator' + op
    r = r.replace('std::__cxx11::', 'std::').replace('std::__1::', 'std::').replace('std::ranges::__', 'std::ranges::')
    _base[q] = r
    return r


def clsof(d):
    b = base(d['qname'])
    k = b.rfind('::')
    return b[:k], b[k + 2:]


# ----------------------------------------------------------------------------

def default_value(I, tu, t):
    r = t.get('rec')
    if r in MAPS:
        return I_rec(r, e=c.empty('so'))
    if r == 'std::function':
        return I_rec(r, f=_null())
    if r in ('std::unique_ptr', 'std::shared_ptr'):
        return I_rec(r, p=_null())
    if r in ('std::pair', 'std::tuple'):
        return _mk('rec', 'o', r, tuple((fieldname(r, i), I.default_of(tu, x)) for i, x in enumerate(t['targs'])))
    if r == 'std::optional':
        return I_rec(r, has=FALSE, v=_mk('top', 'o', 'empty optional'))
    if r and r.startswith('std::') and t.get('recid') is None:
        return I_rec(r)
    if r in ('std::less', 'std::greater', 'std::plus', 'std::minus', 'std::multiplies', 'std::divides', 'std::negate',
             'std::equal_to', 'std::not_equal_to', 'std::less_equal', 'std::greater_equal', 'std::random_device',
             'std::allocator', 'std::mersenne_twister_engine', 'std::basic_ostringstream', 'std::basic_stringstream',
             'std::mutex', 'std::shared_mutex', 'std::logical_and', 'std::logical_or', 'std::logical_not', 'std::hash'):
        return I_rec(r)
    return None


def I_rec(cls, **kw):
    return _mk('rec', 'o', cls, tuple(kw.items()))


def _null():
    return _mk('null', 'o')


def fieldname(r, i):
    return ('first', 'second')[i] if r == 'std::pair' else 'f%d' % i


def unsupported(I, what):
    from .interp import Unsupported
    I.unsup(what)
    raise Unsupported(what)


def fld(v, n):
    return c.wrapnum(c.fld(v, n, 'o'))


def deref_field(I, st, v, tu, tid):
    """field of a tuple that may be a reference"""
    if isinstance(tid, int) and tu.type(tid).get('ref'):
        return v
    return None


# ---------------------------------------------------------------------------
# constructors

def construct(I, e, st, t, d):
    tu = I.fr.tu
    r = t.get('rec')
    k = tu.kind(e['t'])
    args = [a for a in e['c'] if not is_alloc(tu, a)]
    defarg = [a for a in args if not a.get('defarg')]
    sp = d.get('special')
    if k[0] == 's':
        return construct_seq(I, e, st, t, d, k, defarg)
    if sp in ('copyctor', 'movector') and args:
        v = I.ev(args[0], st)
        if sp == 'movector':
            moved_from(I, args[0], st, v)
        return v
    if r == 'std::function':
        if not args:
            return I_rec(r, f=_null())
        v = I.ev(args[0], st)
        if v.op == 'null':
            return I_rec(r, f=_null())
        if v.op == 'rec' and v.a[0] == 'std::function':
            return v
        return I_rec(r, f=v)
    if r in MAPS:
        m = I_rec(r, e=c.empty('so'))
        if not defarg:
            return m
        v = I.ev(defarg[0], st)
        if v.op == 'rec' and v.a[0] == r:
            return v
        if v.k[0] == 's' and len(defarg) == 1 or v.k[0] == 's':
            for x in seqitems(I, v):
                m = map_insert(I, st, m, x if 'set' in r else fld(x, 'first'), None if 'set' in r else fld(x, 'second'), False)[0]
            return m
        if len(defarg) >= 2:
            v2 = I.ev(defarg[1], st)
            s, n = rng(I, st, v, v2)
            for x in seqitems(I, c.slice_(*s, n)):
                m = map_insert(I, st, m, x if 'set' in r else fld(x, 'first'), None if 'set' in r else fld(x, 'second'), False)[0]
            return m
        return m
    if r in ('std::pair', 'std::tuple'):
        if not args:
            return default_value(I, tu, t)
        targs = t['targs']
        if len(args) == len(targs):
            vals = []
            for x, ta in zip(args, targs):
                if tu.type(ta).get('ref'):
                    vals.append(I.lv(x, st))
                else:
                    v = I.coerce(I.ev(x, st), tu, ta)
                    vals.append(v)
            return _mk('rec', 'o', r, tuple((fieldname(r, i), v) for i, v in enumerate(vals)))
        # conversion from another tuple
        v = I.ev(args[0], st)
        return conv_tuple(I, st, v, r)
    if r == 'std::optional':
        if not args:
            return I_rec(r, has=FALSE, v=_mk('top', 'o', 'empty optional'))
        v = I.ev(args[0], st)
        if v.op == 'rec' and v.a[0] == 'std::optional':
            return v
        if v.op == 'rec' and v.a[0] == 'std::nullopt_t':
            return I_rec(r, has=FALSE, v=_mk('top', 'o', 'empty optional'))
        return I_rec(r, has=TRUE, v=v)
    if r in ('std::unique_ptr', 'std::shared_ptr'):
        if not args:
            return I_rec(r, p=_null())
        v = I.ev(args[0], st)
        if v.op == 'rec' and 'p' in dict(v.a[1]):
            if sp is None and r == 'std::unique_ptr' or True:
                return I_rec(r, p=fld(v, 'p'))
        return I_rec(r, p=v)
    if r == 'std::reverse_iterator':
        v = I.ev(args[0], st) if args else _null()
        return I_rec(r, p=v) if not (v.op == 'rec' and v.a[0] == r) else v
    if r in ('std::back_insert_iterator',):
        return I_rec(r, p=I.lv(args[0], st))
    if iterlike(r):
        return I.ev(args[0], st) if args else _null()
    if r == 'std::reference_wrapper':
        return I_rec(r, p=I.lv(args[0], st))
    if r == 'std::uniform_real_distribution' or r == 'std::uniform_int_distribution' or r == 'std::normal_distribution':
        vals = [I.ev(a, st) for a in args]
        while len(vals) < 2:
            vals.append(ONE if len(vals) == 1 else ZERO)
        return I_rec(r, a=vals[0], b=vals[1])
    if r == 'std::mersenne_twister_engine' or r == 'std::linear_congruential_engine':
        s = I.ev(args[0], st) if args else C(5489)
        return I_rec(r, seed=s, n=ZERO)
    if r in ('std::random_device',):
        return I_rec(r, seed=A(c.fresh('entropy', 'i', 'nn')), n=ZERO)
    if r and (r.endswith('lock_guard') or r.endswith('unique_lock') or r.endswith('scoped_lock')):
        return I_rec(r)
    # exceptions, streams, allocators, function objects: the value does not matter
    if r and r.startswith('std::'):
        return I_rec(r)
    I.unsup('constructor of ' + str(t['s']))
    return _mk('top', 'o', 'constructor')


def conv_tuple(I, st, v, r):
    if v.op == 'rec' and v.a[0] in ('std::pair', 'std::tuple'):
        vals = [I.asval(x, st) for n, x in v.a[1]]
        return _mk('rec', 'o', r, tuple((fieldname(r, i), x) for i, x in enumerate(vals)))
    return v


def is_alloc(tu, a):
    t = tu.type(a['t']) if isinstance(a.get('t'), int) and a['t'] >= 0 else {}
    return t.get('rec') == 'std::allocator'


def iterlike(r):
    return bool(r) and ('_iterator' in r or r.endswith('iterator'))


def moved_from(I, a, st, v):
    pass


def seqitems(I, v):
    if v.op == 'elems':
        return list(v.a[0])
    n = c.cint(c.len_(v))
    if n is not None and n <= 64:
        return [c.at(v, C(j)) for j in range(n)]
    unsupported(I, 'iteration over a map of unknown size')


def construct_seq(I, e, st, t, d, k, args):
    tu = I.fr.tu
    r = t.get('rec')
    ek = c.elemkind(k)
    if r == 'std::array':
        if not args:
            return I.default_of(tu, e['t'])
        return I.ev(args[0], st)
    et = t['targs'][0] if t.get('targs') else None
    if not args:
        return c.empty(k)
    pt = [tu.type(p) for p in d.get('ptypes', [])]
    a0t = tu.type(args[0]['t'])
    if r == 'std::basic_string' or r == 'std::basic_string_view':
        v = I.ev(args[0], st)
        if len(args) == 1:
            if v.k[0] == 's':
                return v
            return cstr(I, st, v)
        v2 = I.ev(args[1], st)
        if v.op == 'P' and v2.op == 'P' and pt[0]['k'] in ('int', 'uint'):
            return c.rep(v, v2, 'si')
        if I._ptrlike(v) and I._ptrlike(v2):
            s, n = rng(I, st, v, v2)
            return c.slice_(*s, n)
        if I._ptrlike(v):
            return c.slice_(*seq_at(I, st, v), v2)
        if v.k[0] == 's':
            n = I.ev(args[2], st) if len(args) > 2 else None
            return substr(I, st, v, v2, n)
        return _mk('top', 'si', 'string')
    v = I.ev(args[0], st)
    if len(args) == 1:
        if v.k[0] == 's':
            if d.get('special') == 'movector':
                pass
            if v.op == 'elems':
                return c.elems(k, v.a[0]) if v.k != k else v
            return v
        if v.op == 'P':
            nonneg(I, st, v, 'negative container size')
            dv = I.default_of(tu, et)
            return c.rep(v, dv, k)
        if v.op == 'top':
            return _mk('top', k, v.a[0])
    else:
        if pt and pt[0]['k'] in ('uint', 'int') and v.op == 'P':
            w = I.coerce(I.ev(args[1], st), tu, et)
            nonneg(I, st, v, 'negative container size')
            return c.rep(v, w, k)
        w = I.ev(args[1], st)
        if I._ptrlike(v) and I._ptrlike(w):
            s, n = rng(I, st, v, w)
            x = c.slice_(*s, n)
            return conv_seq(I, x, k, a0t)
        if v.op == 'rec' and v.a[0] == 'std::reverse_iterator':
            s, n = rng(I, st, fld(w, 'p'), fld(v, 'p'))
            return reverse(c.slice_(*s, n))
        if v.op == 'P' and w.op == 'P':
            return c.rep(v, I.coerce(w, tu, et), k)
    if v.op == 'top':
        return _mk('top', k, v.a[0])
    unsupported(I, 'container constructor')


def conv_seq(I, x, k, t=None):
    if x.k == k or x.op == 'top':
        return x
    if c.isempty(x):
        return c.empty(k)
    if x.k == 'so' or k == 'so':
        return x
    if x.k == 'sb' and k in ('si', 'sr'):
        y = c.fresh('x', 'i', 'nn')
        return c.comp(c.len_(x), y, c.elems(k, [ind(c.at(x, A(y)))]))
    if x.k == 'sr' and k == 'si':
        y = c.fresh('x', 'i', 'nn')
        return c.comp(c.len_(x), y, c.elems(k, [c.trunc_(c.at(x, A(y)))]))
    return x


def reverse(s):
    n = c.len_(s)
    y = c.fresh('x', 'i', 'nn')
    if s.op == 'elems':
        return c.elems(s.k, s.a[0][::-1])
    return c.comp(n, y, c.elems(s.k, [c.at(s, c.psub(c.psub(n, ONE), A(y)))]))


def nonneg(I, st, v, why):
    if v.op == 'P':
        I.require(st, ge0(v), 'convert', why)


def cstr(I, st, v):
    """sequence of characters behind a char pointer"""
    if v.op == 'ptr' and v.a[1] and v.a[1][-1][0] == 'i' and not v.a[1][-1][1].d:
        from .interp import ptr
        return I.read(st, ptr(v.a[0], v.a[1][:-1]))
    if v.op == 'ite':
        return ite(v.a[0], cstr(I, st, v.a[1]), cstr(I, st, v.a[2]))
    return _mk('top', 'si', 'char pointer')


def substr(I, st, v, pos, n):
    L = c.len_(v)
    I.throw_if(st, lt(L, pos), 'std::out_of_range')
    rest = c.psub(L, pos)
    if n is None or (c.cint(n) is not None and c.cint(n) >= 1 << 62):
        return c.slice_(v, pos, rest)
    return c.slice_(v, pos, c.min_(n, rest))


def seq_at(I, st, p):
    """(sequence, index) behind an element pointer"""
    from .interp import ptr
    if p.op == 'ptr' and p.a[1] and p.a[1][-1][0] == 'i':
        return I.read(st, ptr(p.a[0], p.a[1][:-1])), p.a[1][-1][1]
    if p.op == 'ptr':
        # pointer to a single object
        v = I.read(st, p)
        k = 's' + (('i' if c.isint(v) else 'r') if v.op == 'P' else v.k)
        return c.elems(k, [v]), ZERO
    unsupported(I, 'iterator ' + p.op)


def contptr(p):
    from .interp import ptr
    return ptr(p.a[0], p.a[1][:-1])


def rng(I, st, a, b):
    """((sequence, start), length) of an iterator range, checked"""
    if a.op == 'ite' or b.op == 'ite':
        # iterators that depend on a condition: index decided by the condition
        pa, pb = as_elem(I, a), as_elem(I, b)
        if pa is not None and pb is not None:
            a, b = pa, pb
        elif a.op == 'ite' and b.op == 'ite' and a.a[0] == b.a[0]:
            # ranges of one container or the other
            cnd, parts = a.a[0], []
            for x, y, q in ((a.a[1], b.a[1], cnd), (a.a[2], b.a[2], not_(cnd))):
                with Under(st, q) as ok:
                    if ok:
                        (sq, i), m = rng(I, st, x, y)
                        parts.append((c.slice_(sq, i, m), m))
                    else:
                        parts.append(None)
            if None in parts:
                parts = [q for q in parts if q] * 2
            if parts and parts[0][0].k == parts[1][0].k:
                return (ite(cnd, parts[0][0], parts[1][0]), ZERO), ite(cnd, parts[0][1], parts[1][1])
    if a.op != 'ptr' or b.op != 'ptr':
        if a.op == 'null' and b.op == 'null':
            return (c.empty('so'), ZERO), ZERO
        unsupported(I, 'iterator range')
    if a.a[0] != b.a[0] or a.a[1][:-1] != b.a[1][:-1]:
        unsupported(I, 'iterators of different containers')
    s, i = seq_at(I, st, a)
    j = b.a[1][-1][1]
    n = c.psub(j, i)
    L = c.len_(s)
    I.require(st, and_(ge0(i), ge0(n), le(j, L)), 'bounds', 'range of a container')
    return (s, i), n


def as_elem(I, p):
    """merge a conditional element pointer into one with a conditional index"""
    from .interp import ptr
    if p.op == 'ptr':
        return p if p.a[1] and p.a[1][-1][0] == 'i' else None
    if p.op == 'ite':
        x, y = as_elem(I, p.a[1]), as_elem(I, p.a[2])
        if x is None or y is None or x.a[0] != y.a[0] or x.a[1][:-1] != y.a[1][:-1]:
            return None
        return ptr(x.a[0], x.a[1][:-1] + (('i', ite(p.a[0], x.a[1][-1][1], y.a[1][-1][1])),))
    return None


# --------------------------------------------------------------------------
# maps (entries in key order when the keys are known)

class Under:
    """facts of a state with one more condition, for a while"""

    def __init__(self, st, cond):
        self.st = st
        self.cond = cond

    def __enter__(self):
        self.old = self.st.facts
        self.st.facts = self.old.assume(self.cond)
        G.facts = self.st.facts
        return not self.st.facts.bad

    def __exit__(self, *x):
        self.st.facts = self.old
        G.facts = self.old


def either(I, st, q, f):
    """f(True) where q holds and f(False) where it does not, merged; f gives
    a tuple of terms"""
    d = I.decide(st, q)
    if d is not None:
        return f(d)
    with Under(st, q) as ok:
        x = f(True) if ok else None
    with Under(st, not_(q)) as ok:
        y = f(False) if ok else None
    if x is None:
        return y
    if y is None:
        return x
    G.facts = st.facts
    return tuple(ite(q, u, v) for u, v in zip(x, y))


def map_find(I, st, m, key):
    """index of the entry with this key, or number of entries"""
    e = fld(m, 'e')
    G.facts = st.facts
    return find_in(I, st, e, key, 'set' in m.a[0]), e


def halves(e):
    """(condition, entries if it holds, entries otherwise)"""
    if e.op == 'ite':
        return e.a
    if e.op == 'cat':
        for i, x in enumerate(e.a[0]):
            if x.op == 'ite':
                l = list(e.a[0])
                return (x.a[0],) + tuple(c.cat('so', *(l[:i] + [y] + l[i + 1:])) for y in x.a[1:])
    return None


def find_in(I, st, e, key, isset):
    w = halves(e)
    if w:
        return either(I, st, w[0], lambda t: (find_in(I, st, w[1] if t else w[2], key, isset),))[0]
    if e.op != 'elems':
        unsupported(I, 'map of unknown content ' + str((locals().get('e') or m))[:150])
    r = C(len(e.a[0]))
    for i in range(len(e.a[0]) - 1, -1, -1):
        x = e.a[0][i]
        kx = x if isset else fld(x, 'first')
        q = eq(kx, key)
        d = I.decide(st, q)
        if d is True:
            r = C(i)
        elif d is None:
            r = ite(q, C(i), r)
    return r


def keyless(a, b):
    """order of keys: True/False/None"""
    if a.op == 'P' and b.op == 'P':
        return c.decide(lt(a, b))
    if a.op == 'elems' and b.op == 'elems' and a.k == b.k:
        xs, ys = a.a[0], b.a[0]
        if all(x.op == 'P' and c.isconst(x) for x in xs + ys):
            return tuple(c.cval(x) for x in xs) < tuple(c.cval(x) for x in ys)
        for x, y in zip(xs, ys):
            if x.op != 'P' or y.op != 'P':
                return None
            if c.prove(lt(x, y)):
                return True
            if c.prove(lt(y, x)):
                return False
            if not c.prove(eq0(c.psub(x, y))):
                return None
        return len(xs) < len(ys)
    return None


def map_insert(I, st, m, key, val, replace):
    """returns (map, index, inserted)"""
    G.facts = st.facts
    e, i, new = insert_in(I, st, fld(m, 'e'), key, val, replace, 'set' in m.a[0])
    return _mk('rec', 'o', m.a[0], (('e', e),)), i, new


def insert_in(I, st, e, key, val, replace, isset):
    w = halves(e)
    if w:
        return either(I, st, w[0], lambda t: insert_in(I, st, w[1] if t else w[2], key, val, replace, isset))
    if e.op != 'elems':
        unsupported(I, 'map of unknown content ' + str((locals().get('e') or m))[:150])
    G.facts = st.facts
    for i, x in enumerate(e.a[0]):
        q = eq(x if isset else fld(x, 'first'), key)
        d = I.decide(st, q)
        if d is None:
            return either(I, st, q, lambda t: insert_in(I, st, e, key, val, replace, isset))
        if d:
            if replace and not isset:
                xs = list(e.a[0])
                xs[i] = _mk('rec', 'o', 'std::pair', (('first', fld(x, 'first')), ('second', val)))
                return c.elems('so', xs), C(i), FALSE
            return e, C(i), FALSE
    new = key if isset else _mk('rec', 'o', 'std::pair', (('first', key), ('second', val)))
    xs = list(e.a[0])
    pos = len(xs)
    G.facts = st.facts
    while pos > 0:
        kx = xs[pos - 1] if isset else fld(xs[pos - 1], 'first')
        l = keyless(key, kx)
        if l is None:
            if keyless(kx, key) is True:
                break
            break
        if not l:
            break
        pos -= 1
    xs.insert(pos, new)
    return c.elems('so', xs), C(pos), TRUE


def erase_in(I, st, e, i):
    w = halves(e)
    if w:
        return either(I, st, w[0], lambda t: (erase_in(I, st, w[1] if t else w[2], i),))[0]
    if e.op != 'elems':
        unsupported(I, 'map of unknown content ' + str((locals().get('e') or m))[:150])
    n = len(e.a[0])
    for k in range(n):
        q = eq0(c.psub(i, C(k)))
        d = I.decide(st, q)
        if d is None:
            return either(I, st, q, lambda t: (erase_in(I, st, e, C(k) if t else i),))[0]
        if d:
            return c.elems('so', e.a[0][:k] + e.a[0][k + 1:])
    return e


def elements(I, st, v):
    """the elements of a sequence of known length"""
    if v.op == 'elems':
        return list(v.a[0])
    G.facts = st.facts
    n = c.len_(v)
    if c.isconst(n) and 0 <= c.cval(n) <= 64:
        return [c.at(v, C(i)) for i in range(int(c.cval(n)))]
    unsupported(I, 'elements of a sequence of unknown length')


def strictly(a, b):
    """a before b, as a condition"""
    l = keyless(a, b)
    if l is not None:
        return TRUE if l else FALSE
    if a.op == 'P' and b.op == 'P':
        return lt(a, b)
    if a == b:
        return FALSE
    return _mk('uf', 'b', 'seqless', (a, b))


def bound_in(I, st, e, key, isset, upper):
    """index of the first entry not before (upper: after) the key; the order of entries is
    that of their keys even where it is not known"""
    w = halves(e)
    if w:
        return either(I, st, w[0], lambda t: (bound_in(I, st, w[1] if t else w[2], key, isset, upper),))[0]
    if e.op != 'elems':
        unsupported(I, 'map of unknown content ' + str(e)[:150])
    ks = [x if isset else fld(x, 'first') for x in e.a[0]]
    n = len(ks)
    G.facts = st.facts
    r = C(n)
    if ks and all(keyless(a, b) for a, b in zip(ks, ks[1:])):
        for i in range(n - 1, -1, -1):
            r = ite(strictly(key, ks[i]), C(i), r)
    else:
        for i in range(n - 1, -1, -1):
            q = strictly(key, ks[i])
            for j in range(n):
                if j != i:
                    q = c.and_(q, c.or_(not_(strictly(key, ks[j])), strictly(ks[i], ks[j])))
            r = ite(q, C(i), r)
    if not upper:
        for i in range(n - 1, -1, -1):
            q = eq(ks[i], key)
            d = I.decide(st, q)
            if d is True:
                r = C(i)
            elif d is None:
                r = ite(q, C(i), r)
    return r


def entryptr(p, i):
    from .interp import ptr
    return ptr(p.a[0], p.a[1] + (('f', 'e'), ('i', i)))


# --------------------------------------------------------------------------
# helpers for calls

def rangeptr(I, st, p):
    v = I.read(st, p)
    if v.k[0] == 's':
        return p
    if v.op == 'rec' and v.a[0] in MAPS:
        return I.pproj(p, ('f', 'e'))
    return None


def global_value(I, tu, dd):
    q = dd.get('qname') or ''
    n = dd.get('name')
    if q.startswith('std::') or dd.get('sys'):
        if n == 'nullopt':
            return I_rec('std::nullopt_t')
        if n == 'npos':
            return C((1 << 64) - 1)
        return I_rec('std::' + (n or ''))
    return None


def call(I, e, st, d):
    """call of a library function: e is the call node"""
    tu = I.fr.tu
    es = e['c']
    q = base(d['qname'])
    if d.get('method') and not d.get('staticm') and es:
        cls, name = clsof(d)
        args = es[1:]
        # the object
        if e.get('arrow'):
            p = I.deref(I.ev(es[0], st), st)
        else:
            p = None
        h = METHODS.get(shortcls(cls))
        if h is not None:
            r = h(I, e, st, d, cls, name, es[0], p, args)
            if r is not None:
                return r
        return unsupported(I, 'call of ' + d['qname'])
    h = FUNCS.get(q)
    if h is None and q.startswith('std::ranges::'):
        h = FUNCS.get('std::' + q[13:])
    if h is None and not q.startswith('std::') and '::' not in q:
        h = FUNCS.get('std::' + q)
    if h is None:
        k = q.rfind('operator')
        if k >= 0:
            return operator(I, e, st, d, q[k + 8:], es)
        return unsupported(I, 'call of ' + q)
    return h(I, e, st, d, es)


def call_named(I, d, args, st):
    """library function called through a pointer with evaluated arguments"""
    q = base(d['qname'])
    name = q.split('::')[-1]
    vals = [I.asval(a, st) for a in args]
    f = NUM1.get(name)
    if f is not None and len(vals) == 1:
        return f(I, st, I.num(vals[0]))
    if name in ('min', 'max', 'fmin', 'fmax') and len(vals) == 2:
        return (c.min_ if 'min' in name else c.max_)(vals[0], vals[1])
    if name == 'pow':
        return power(I, st, vals[0], vals[1])
    unsupported(I, 'call of ' + q)


def shortcls(cls):
    b = cls
    if iterlike(b):
        if 'reverse_iterator' in b:
            return 'reverse_iterator'
        if 'back_insert' in b:
            return 'back_insert'
        return 'iterator'
    if b in SEQ:
        return 'seq'
    if b in MAPS:
        return 'map'
    return b


def objptr(I, st, o, p):
    return p if p is not None else I.lv(o, st)


def elem(I, p, i):
    return I.pproj(p, ('i', i))


# --------------------------------------------------------------------------
# sequences

def m_seq(I, e, st, d, cls, name, o, p, args):
    tu = I.fr.tu
    ot = tu.type(o['t'])
    k = None
    if p is None and not o.get('lv') and name in ('size', 'length', 'empty', 'back', 'front', 'at', 'operator[]', 'substr', 'find',
                                                  'compare'):
        p = I.lv(o, st)
    if p is None:
        p = I.lv(o, st)
    if name in ('size', 'length'):
        return c.len_(I.read(st, p))
    if name == 'empty':
        v = I.read(st, p)
        G.facts = st.facts
        return eq0(c.len_(v))
    if name in ('begin', 'cbegin', 'data', 'c_str'):
        return elem(I, p, ZERO)
    if name in ('end', 'cend'):
        return elem(I, p, c.len_(I.read(st, p)))
    if name in ('rbegin', 'crbegin'):
        return I_rec('std::reverse_iterator', p=elem(I, p, c.len_(I.read(st, p))))
    if name in ('rend', 'crend'):
        return I_rec('std::reverse_iterator', p=elem(I, p, ZERO))
    if name == 'operator[]':
        i = I.num(I.ev(args[0], st))
        v = I.read(st, p)
        I.bounds(st, v, i)
        return elem(I, p, i)
    if name == 'at':
        i = I.num(I.ev(args[0], st))
        v = I.read(st, p)
        G.facts = st.facts
        I.throw_if(st, not_(and_(ge0(i), lt(i, c.len_(v)))), 'std::out_of_range')
        return elem(I, p, i)
    if name == 'front':
        v = I.read(st, p)
        I.bounds(st, v, ZERO)
        return elem(I, p, ZERO)
    if name == 'back':
        v = I.read(st, p)
        i = c.psub(c.len_(v), ONE)
        I.bounds(st, v, i)
        return elem(I, p, i)
    if name in ('reserve', 'shrink_to_fit'):
        for a in args:
            I.ev(a, st)
        return UNIT()
    if name in ('max_size', 'capacity'):
        return A(_mk('top', 'i', 'capacity'))
    if name == 'clear':
        v = I.read(st, p)
        I.write(st, p, c.empty(v.k))
        return UNIT()
    et = ot['targs'][0] if ot.get('targs') else None
    if ot.get('pointee') is not None and et is None:
        et = tu.type(ot['pointee']).get('targs', [None])[0]
    if name in ('push_back', 'emplace_back'):
        if name == 'emplace_back' and len(args) != 1:
            if not args:
                x = I.default_of(tu, et)
            else:
                x = emplace(I, st, tu, et, args)
        else:
            x = I.ev(args[0], st)
            if et is not None:
                if name == 'emplace_back' and needs_ctor(I, tu, et, x):
                    x = emplace(I, st, tu, et, args)
                else:
                    x = I.coerce(x, tu, et)
        v = I.read(st, p)
        kk = v.k
        I.write(st, p, append(v, x))
        if name == 'emplace_back':
            return elem(I, p, c.len_(v))
        return UNIT()
    if name == 'pop_back':
        v = I.read(st, p)
        n = c.psub(c.len_(v), ONE)
        I.bounds(st, v, n)
        I.write(st, p, c.slice_(v, ZERO, n))
        return UNIT()
    if name in ('insert',):
        vals = [I.ev(a, st) for a in args]
        v = I.read(st, p)
        pos = vals[0]
        if pos.op == 'P':
            i = pos
        else:
            i = as_elem(I, pos)
            if i is None:
                unsupported(I, 'insert position')
            i = i.a[1][-1][1]
        n = c.len_(v)
        I.require(st, and_(ge0(i), le(i, n)), 'bounds', 'insert position')
        if len(vals) == 3 and I._ptrlike(vals[1]):
            s, m = rng(I, st, vals[1], vals[2])
            w = c.slice_(*s, m)
        elif len(vals) == 3 and vals[1].op == 'P':
            w = c.rep(vals[1], I.coerce(vals[2], tu, et), v.k)
        elif len(vals) == 2 and vals[1].k[0] == 's' and (v.k == vals[1].k):
            w = vals[1]
        elif len(vals) == 2:
            w = c.elems(v.k, [I.coerce(vals[1], tu, et)])
        else:
            unsupported(I, 'insert')
        G.facts = st.facts
        if prove(eq0(c.psub(i, n))):
            nv = c.cat(v.k, v, w)
        else:
            nv = c.cat(v.k, c.slice_(v, ZERO, i), w, c.slice_(v, i, c.psub(n, i)))
        I.write(st, p, nv)
        return elem(I, p, i)
    if name == 'erase':
        vals = [I.ev(a, st) for a in args]
        v = I.read(st, p)
        n = c.len_(v)
        a0 = as_elem(I, vals[0])
        if a0 is None:
            unsupported(I, 'erase')
        i = a0.a[1][-1][1]
        if len(vals) == 1:
            I.bounds(st, v, i)
            j = c.padd(i, ONE)
        else:
            s, m = rng(I, st, vals[0], vals[1])
            j = c.padd(i, m)
        G.facts = st.facts
        I.write(st, p, c.cat(v.k, c.slice_(v, ZERO, i), c.slice_(v, j, c.psub(n, j))))
        return elem(I, p, i)
    if name == 'resize':
        vals = [I.ev(a, st) for a in args]
        v = I.read(st, p)
        n = c.len_(v)
        m = vals[0]
        nonneg(I, st, m, 'negative container size')
        x = I.coerce(vals[1], tu, et) if len(vals) > 1 else I.default_of(tu, et)
        G.facts = st.facts
        gr = le(n, m)
        dd = I.decide(st, gr)
        if dd is True:
            nv = c.cat(v.k, v, c.rep(c.psub(m, n), x, v.k))
        elif dd is False:
            nv = c.slice_(v, ZERO, m)
        else:
            with c.assuming(gr):
                w1 = c.cat(v.k, v, c.rep(c.psub(m, n), x, v.k))
            with c.assuming(not_(gr)):
                w2 = c.slice_(v, ZERO, m)
            nv = ite(gr, w1, w2)
        I.write(st, p, nv)
        return UNIT()
    if name == 'assign':
        vals = [I.ev(a, st) for a in args]
        v = I.read(st, p)
        if len(vals) == 2 and I._ptrlike(vals[0]):
            s, m = rng(I, st, vals[0], vals[1])
            w = conv_seq(I, c.slice_(*s, m), v.k)
        elif len(vals) == 2:
            nonneg(I, st, vals[0], 'negative container size')
            w = c.rep(vals[0], I.coerce(vals[1], tu, et), v.k)
        else:
            w = vals[0]
        I.write(st, p, w)
        return UNIT()
    if name == 'swap':
        q = I.lv(args[0], st)
        x, y = I.read(st, p), I.read(st, q)
        I.write(st, p, y)
        I.write(st, q, x)
        return UNIT()
    if name == 'fill':
        x = I.coerce(I.ev(args[0], st), tu, et) if et is not None else I.ev(args[0], st)
        v = I.read(st, p)
        I.write(st, p, c.rep(c.len_(v), x, v.k))
        return UNIT()
    if name == 'operator=':
        x = I.ev(args[0], st)
        kk = tu.kind(o['t'])
        if x.k[0] != 's':
            if x.op == 'ptr':
                x = cstr(I, st, x)
            elif x.op == 'P':
                x = c.elems('si', [x])
        if x.k[0] == 's' and x.k != kk and x.op == 'elems':
            x = c.elems(kk, x.a[0])
        I.write(st, p, x)
        return p
    if name in ('operator+=', 'append'):
        x = I.ev(args[0], st)
        if x.op == 'P':
            x = c.elems('si', [x])
        elif x.op == 'ptr':
            x = cstr(I, st, x)
        v = I.read(st, p)
        I.write(st, p, c.cat('si', v, x))
        return p
    if name == 'substr':
        v = I.read(st, p)
        pos = I.ev(args[0], st) if args else ZERO
        n = I.ev(args[1], st) if len(args) > 1 else None
        return substr(I, st, v, pos, n)
    if name in ('starts_with', 'ends_with', 'compare', 'find', 'rfind', 'find_first_of', 'find_last_of', 'contains'):
        v = I.read(st, p)
        xs = [I.ev(a, st) for a in args]
        x = xs[0]
        if x.op == 'ptr':
            x = cstr(I, st, x)
        if x.op == 'P':
            x = c.elems('si', [x])
        if name == 'starts_with':
            n = c.len_(x)
            return and_(le(n, c.len_(v)), eq(c.slice_(v, ZERO, n), x))
        if name == 'ends_with':
            n = c.len_(x)
            return and_(le(n, c.len_(v)), eq(c.slice_(v, c.psub(c.len_(v), n), n), x))
        if name == 'contains':
            return _mk('uf', 'b', 'str.contains', (v, x))
        return c.uf('str.' + name, 'i', v, x)
    if name == 'operator basic_string_view':
        return I.read(st, p)
    if name in ('operator==',):
        return eq(I.read(st, p), I.ev(args[0], st))
    if name in ('basic_string', 'vector'):
        return None
    if name.startswith('~'):
        return UNIT()
    return None


def needs_ctor(I, tu, et, x):
    t = tu.type(et)
    k = tu.kind(et)
    if k[0] == 's':
        return not (x.k[0] == 's')
    if k == 'o' and t['k'] == 'record':
        if x.op == 'rec' and t.get('recid') is not None and t['recid'] in tu.decls and \
                I.prog.clsname(tu, t['recid']) == x.a[0]:
            return False
        if x.op == 'rec' and t.get('rec') == x.a[0]:
            return False
        return x.op != 'ite' and x.op != 'top' and not (x.k == 'o' and x.op in ('at', 'sym', 'fld', 'uf'))
    return False


def emplace(I, st, tu, et, args):
    """construct an element from constructor arguments"""
    t = tu.type(et)
    k = tu.kind(et)
    vals = [I.ev(a, st) for a in args]
    if k[0] == 's':
        if t.get('rec') == 'std::basic_string':
            if len(vals) == 1:
                return vals[0] if vals[0].k[0] == 's' else cstr(I, st, vals[0])
        elif len(vals) == 2 and vals[0].op == 'P':
            return c.rep(vals[0], I.coerce(vals[1], tu, t['targs'][0]), k)
        elif len(vals) == 2 and I._ptrlike(vals[0]):
            s, n = rng(I, st, vals[0], vals[1])
            return c.slice_(*s, n)
        elif len(vals) == 1 and vals[0].op == 'P':
            return c.rep(vals[0], I.default_of(tu, t['targs'][0]), k)
    r = t.get('rec')
    if r in ('std::pair', 'std::tuple') and len(vals) == len(t['targs']):
        return _mk('rec', 'o', r, tuple((fieldname(r, i), v) for i, v in enumerate(vals)))
    if t.get('recid') is not None and t['recid'] in tu.decls:
        rd = tu.decls[t['recid']]
        for m in rd.get('methods', []):
            md = tu.decls.get(m)
            if md and md.get('ctor') and len(md.get('ptypes', [])) >= len(vals):
                f = I.prog.lookup(tu, m)
                if f is None or len(f.j['params']) != len(vals):
                    continue
                if I.match(tu, md, vals, st) is None:
                    continue
                obj = I.alloc(st, I.default_rec(tu, t['recid'], st), 'temporary')
                I.call_fn(f, st, obj, vals)
                v = I.read(st, obj)
                st.store.pop(obj.a[0], None)
                return v
        if len(vals) == 1:
            return vals[0]
        obj = I.default_rec(tu, t['recid'], st)
        if len(obj.a[1]) >= len(vals):
            return _mk('rec', 'o', obj.a[0], tuple((n, vals[i] if i < len(vals) else x) for i, (n, x) in enumerate(obj.a[1])))
    unsupported(I, 'emplace')


def append(v, x):
    if v.op == 'top':
        return v
    if x.op == 'top':
        return _mk('top', v.k, x.a[0])
    return c.cat(v.k, v, c.elems(v.k, [x]))


def UNIT():
    return _mk('unit', 'o')


def prove(b):
    return c.prove(b)


# --------------------------------------------------------------------------
# maps

def m_map(I, e, st, d, cls, name, o, p, args):
    if p is None:
        p = I.lv(o, st)
    m = I.read(st, p)
    if m.op != 'rec':
        unsupported(I, 'map of unknown content ' + str((locals().get('e') or m))[:150])
    ent = fld(m, 'e')
    if name in ('size',):
        return c.len_(ent)
    if name == 'empty':
        return eq0(c.len_(ent))
    if name in ('begin', 'cbegin'):
        return entryptr(p, ZERO)
    if name in ('end', 'cend'):
        return entryptr(p, c.len_(ent))
    if name == 'clear':
        I.write(st, p, _mk('rec', 'o', m.a[0], (('e', c.empty('so')),)))
        return UNIT()
    if name in ('find', 'count', 'contains'):
        key = keyarg(I, st, args[0])
        i, ee = map_find(I, st, m, key)
        if name == 'find':
            return entryptr(p, i)
        h = lt(i, c.len_(ee))
        return h if name == 'contains' else ind(h)
    if name in ('lower_bound', 'upper_bound', 'equal_range') and len(args) == 1:
        key = keyarg(I, st, args[0])
        isset = 'set' in m.a[0]
        if name == 'equal_range':
            return I_rec('std::pair', first=entryptr(p, bound_in(I, st, ent, key, isset, False)),
                         second=entryptr(p, bound_in(I, st, ent, key, isset, True)))
        return entryptr(p, bound_in(I, st, ent, key, isset, name == 'upper_bound'))
    if name in ('operator[]',):
        key = keyarg(I, st, args[0])
        i, ee = map_find(I, st, m, key)
        tu = I.fr.tu
        if I.decide(st, eq0(c.psub(i, c.len_(ee)))) is not False:
            ot = tu.type(o['t'])
            if ot['k'] == 'ptr':
                ot = tu.type(ot['pointee'])
            vt = ot['targs'][1]
            dv = default_object(I, st, tu, vt)
            m2, i, _ = map_insert(I, st, m, key, dv, False)
            I.write(st, p, m2)
        return I.pproj(entryptr(p, i), ('f', 'second'))
    if name == 'at':
        key = keyarg(I, st, args[0])
        i, ee = map_find(I, st, m, key)
        G.facts = st.facts
        I.throw_if(st, eq0(c.psub(i, c.len_(ee))), 'std::out_of_range')
        return I.pproj(entryptr(p, i), ('f', 'second'))
    if name in ('insert', 'emplace', 'try_emplace', 'insert_or_assign'):
        isset = 'set' in m.a[0]
        if isset:
            if len(args) == 2 and name == 'insert':
                (q, j0), n = rng(I, st, I.ev(args[0], st), I.ev(args[1], st))
                G.facts = st.facts
                v = c.slice_(q, j0, n)
                v = elements(I, st, v)
                for x in v:
                    m, _, _ = map_insert(I, st, m, x, None, False)
                I.write(st, p, m)
                return UNIT()
            key, val = keyarg(I, st, args[0]), None
            if len(args) > 1:
                unsupported(I, 'range insert')
        elif len(args) == 1:
            x = I.ev(args[0], st)
            key, val = I.asval(fld(x, 'first'), st), I.asval(fld(x, 'second'), st)
        else:
            key, val = keyarg(I, st, args[0]), I.ev(args[1], st)
        m2, i, new = map_insert(I, st, m, key, val, name == 'insert_or_assign')
        I.write(st, p, m2)
        return _mk('rec', 'o', 'std::pair', (('first', entryptr(p, i)), ('second', new)))
    if name == 'erase':
        x = I.ev(args[0], st)
        if I._ptrlike(x) and x.op == 'ptr' and x.a[1] and x.a[1][-1][0] == 'i' and x.a[0] == p.a[0] and \
                x.a[1][:-1] == p.a[1] + (('f', 'e'),):
            i = x.a[1][-1][1]
            I.bounds(st, ent, i)
            r = entryptr(p, i)
        else:
            key = x if x.k[0] == 's' or x.op != 'ptr' else keyarg(I, st, args[0])
            i, ee = map_find(I, st, m, key)
            r = ind(lt(i, c.len_(ee)))
        I.write(st, p, _mk('rec', 'o', m.a[0], (('e', erase_in(I, st, ent, i)),)))
        return r
    if name == 'swap':
        q = I.lv(args[0], st)
        y = I.read(st, q)
        I.write(st, q, m)
        I.write(st, p, y)
        return UNIT()
    if name == 'operator=':
        x = I.ev(args[0], st)
        I.write(st, p, x)
        return p
    if name.startswith('~'):
        return UNIT()
    return None


def keyarg(I, st, a):
    v = I.ev(a, st)
    if v.op == 'ptr' and v.k == 'o':
        tu = I.fr.tu
        t = tu.type(a['t'])
        if t['k'] == 'ptr':
            return cstr(I, st, v)
        v = I.read(st, v)
    return v


def default_object(I, st, tu, tid):
    t = tu.type(tid)
    if t['k'] == 'record' and t.get('recid') is not None and t['recid'] in tu.decls and tu.kind(tid) == 'o':
        v = default_value(I, tu, t)
        if v is not None:
            return v
        rd = tu.decls[t['recid']]
        for m in rd.get('methods', []):
            md = tu.decls.get(m)
            if md and md.get('ctor') and md.get('special') == 'defaultctor':
                f = I.prog.lookup(tu, m)
                if f is not None and (f.j.get('body') is not None or f.j.get('inits')):
                    obj = I.alloc(st, I.default_rec(tu, t['recid'], st), 'temporary')
                    I.call_fn(f, st, obj, [])
                    v = I.read(st, obj)
                    st.store.pop(obj.a[0], None)
                    return v
        old = I.fr
        return I.init_defaults(tu, t['recid'], I.default_rec(tu, t['recid'], st), st)
    return I.default_of(tu, tid)


# --------------------------------------------------------------------------
# iterators

def m_iter(I, e, st, d, cls, name, o, p, args):
    if name == 'operator*':
        v = I.ev(o, st)
        v = I.deref(v, st)
        I.check_elem(v, st)
        return v
    if name == 'operator->':
        v = I.ev(o, st)
        v = I.deref(v, st)
        I.check_elem(v, st)
        return v
    if name == 'operator[]':
        v = I.ptradd(I.ev(o, st), I.num(I.ev(args[0], st)))
        I.check_elem(v, st)
        return v
    if name in ('operator++', 'operator--'):
        q = I.lv(o, st)
        v = I.read(st, q)
        nv = I.ptradd(v, ONE if name == 'operator++' else C(-1))
        I.write(st, q, nv)
        return v if args else q
    if name in ('operator+', 'operator-'):
        v = I.ev(o, st)
        w = I.ev(args[0], st)
        if I._ptrlike(w):
            return I.ptrdiff(v, w)
        w = I.num(w)
        return I.ptradd(v, w if name == 'operator+' else c.pneg(w))
    if name in ('operator+=', 'operator-='):
        w = I.num(I.ev(args[0], st))
        q = I.lv(o, st)
        v = I.read(st, q)
        I.write(st, q, I.ptradd(v, w if name == 'operator+=' else c.pneg(w)))
        return q
    if name == 'operator=':
        w = I.ev(args[0], st)
        q = I.lv(o, st)
        I.write(st, q, w)
        return q
    if name == 'base':
        return I.ev(o, st)
    if name in ('operator==', 'operator!='):
        v, w = I.ev(o, st), I.ev(args[0], st)
        return I.compare(name[8:], v, w, st)
    return None


def m_rev(I, e, st, d, cls, name, o, p, args):
    if name in ('operator*', 'operator->'):
        v = I.ev(o, st)
        q = I.ptradd(fld(v, 'p'), C(-1))
        I.check_elem(q, st)
        return q
    if name in ('operator++', 'operator--'):
        q = I.lv(o, st)
        v = I.read(st, q)
        nv = I_rec('std::reverse_iterator', p=I.ptradd(fld(v, 'p'), C(-1) if name == 'operator++' else ONE))
        I.write(st, q, nv)
        return v if args else q
    if name in ('operator+', 'operator-'):
        v = I.ev(o, st)
        w = I.num(I.ev(args[0], st))
        return I_rec('std::reverse_iterator', p=I.ptradd(fld(v, 'p'), c.pneg(w) if name == 'operator+' else w))
    if name == 'base':
        return fld(I.ev(o, st), 'p')
    if name == 'operator[]':
        v = I.ev(o, st)
        w = I.num(I.ev(args[0], st))
        q = I.ptradd(fld(v, 'p'), c.psub(C(-1), w))
        I.check_elem(q, st)
        return q
    if name == 'operator=':
        w = I.ev(args[0], st)
        q = I.lv(o, st)
        I.write(st, q, w)
        return q
    return None


def m_backins(I, e, st, d, cls, name, o, p, args):
    if name in ('operator*', 'operator++'):
        return I.lv(o, st)
    if name == 'operator=':
        x = I.ev(args[0], st)
        q = I.lv(o, st)
        cp = fld(I.read(st, q), 'p')
        v = I.read(st, cp)
        I.write(st, cp, append(v, x))
        return q
    return None


def m_function(I, e, st, d, cls, name, o, p, args):
    if name == 'operator()':
        p = objptr(I, st, o, p)
        avals = []
        for x in args:
            avals.append(I.lv(x, st) if x.get('lv') else I.ev(x, st))
        return I.invoke(p, avals, st)
    if name == 'operator bool':
        return I.tobool(I.ev(o, st))
    if name == 'operator=':
        x = I.ev(args[0], st)
        p = objptr(I, st, o, p)
        if x.op == 'null':
            v = I_rec('std::function', f=_null())
        else:
            v = x if x.op == 'rec' and x.a[0] == 'std::function' else I_rec('std::function', f=x)
        I.write(st, p, v)
        return p
    return None


def m_tuple(I, e, st, d, cls, name, o, p, args):
    if name == 'operator=':
        x = I.ev(args[0], st)
        p = objptr(I, st, o, p)
        v = I.read(st, p)
        if v.op == 'rec' and x.op == 'rec' and len(v.a[1]) == len(x.a[1]):
            newf = []
            vals = [I.asval(y, st) for n, y in x.a[1]]
            for (n, old), y in zip(v.a[1], vals):
                if old.op == 'ptr' and old.k == 'o' and y.op not in ('ptr', 'null'):
                    I.write(st, old, y)
                    newf.append((n, old))
                else:
                    newf.append((n, y))
            I.write(st, p, _mk('rec', 'o', v.a[0], tuple(newf)))
        else:
            I.write(st, p, x)
        return p
    if name == 'swap':
        return None
    if name.startswith('~'):
        return UNIT()
    return None


def m_optional(I, e, st, d, cls, name, o, p, args):
    p = objptr(I, st, o, p)
    v = I.read(st, p)
    if name in ('has_value', 'operator bool'):
        return fld(v, 'has')
    if name in ('operator*', 'operator->'):
        I.require(st, fld(v, 'has'), 'nullderef', 'empty optional')
        return I.pproj(p, ('f', 'v'))
    if name == 'value':
        I.throw_if(st, not_(fld(v, 'has')), 'std::bad_optional_access')
        return I.pproj(p, ('f', 'v'))
    if name == 'value_or':
        return ite(fld(v, 'has'), fld(v, 'v'), I.ev(args[0], st))
    if name == 'reset':
        I.write(st, p, I_rec('std::optional', has=FALSE, v=_mk('top', 'o', 'empty optional')))
        return UNIT()
    if name in ('operator=', 'emplace'):
        x = I.ev(args[0], st)
        if not (x.op == 'rec' and x.a[0] == 'std::optional'):
            if x.op == 'rec' and x.a[0] == 'std::nullopt_t':
                x = I_rec('std::optional', has=FALSE, v=_mk('top', 'o', 'empty optional'))
            else:
                x = I_rec('std::optional', has=TRUE, v=x)
        I.write(st, p, x)
        return p
    return None


def m_smart(I, e, st, d, cls, name, o, p, args):
    p = objptr(I, st, o, p)
    v = I.read(st, p)
    q = fld(v, 'p')
    if name in ('operator*', 'operator->'):
        q = I.deref(q, st)
        return q
    if name == 'get':
        return q
    if name == 'operator bool':
        return I.tobool(q)
    if name == 'release':
        I.write(st, p, I_rec(v.a[0], p=_null()))
        return q
    if name == 'reset':
        I.write(st, p, I_rec(v.a[0], p=I.ev(args[0], st) if args and not args[0].get('defarg') else _null()))
        return UNIT()
    if name == 'operator=':
        x = I.ev(args[0], st)
        I.write(st, p, x if x.op == 'rec' else I_rec(v.a[0], p=x))
        if args and x.op == 'rec' and v.a[0] == 'std::unique_ptr' and args[0].get('lv') == 'x':
            I.write(st, I.lv(args[0], st), I_rec(v.a[0], p=_null()))
        return p
    return None


def m_random(I, e, st, d, cls, name, o, p, args):
    if name == 'operator()':
        p = objptr(I, st, o, p)
        v = I.read(st, p)
        if 'distribution' in cls:
            gp = I.lv(args[0], st)
            g = I.read(st, gp)
            n = fld(g, 'n')
            u = c.uf('random', 'r', I.num(fld(g, 'seed')), I.num(n))
            I.write(st, gp, _mk('rec', 'o', g.a[0], (('seed', fld(g, 'seed')), ('n', c.padd(I.num(n), ONE)))))
            a, b = I.num(fld(v, 'a')), I.num(fld(v, 'b'))
            if 'real' not in cls:
                return A(_mk('top', 'i', 'random int'))
            # a + (b-a)*u, 0 <= u < 1
            return c.padd(a, c.pmul(c.psub(b, a), u))
        n = fld(v, 'n')
        I.write(st, p, _mk('rec', 'o', v.a[0], (('seed', fld(v, 'seed')), ('n', c.padd(I.num(n), ONE)))))
        return c.uf('randint', 'i', I.num(fld(v, 'seed')), I.num(n))
    if name == 'seed':
        p = objptr(I, st, o, p)
        v = I.read(st, p)
        I.write(st, p, _mk('rec', 'o', v.a[0], (('seed', I.ev(args[0], st)), ('n', ZERO))))
        return UNIT()
    return None


def m_stream(I, e, st, d, cls, name, o, p, args):
    if name in ('operator<<', 'put', 'write', 'flush', 'operator>>'):
        # formatting has no effect on values
        for x in args:
            quiet(I, x, st)
        return objptr(I, st, o, p)
    if name == 'str':
        return _mk('top', 'si', 'stream text')
    if name in ('precision', 'width', 'setf', 'flags', 'unsetf', 'fill', 'good', 'rdbuf', 'operator bool', 'imbue'):
        tu = I.fr.tu
        k = tu.kind(d['ret']) if d.get('ret') is not None else 'o'
        from .interp import kindtop
        return kindtop(k, 'stream') if k != 'o' else UNIT()
    return None


def quiet(I, x, st):
    t = I.fr.tu.type(x['t']) if isinstance(x.get('t'), int) and x['t'] >= 0 else {}
    if t.get('k') == 'fn' or t.get('pointee') is not None and I.fr.tu.type(t['pointee']).get('k') == 'fn':
        return
    I.ev(x, st)


def m_fobj(I, e, st, d, cls, name, o, p, args):
    if name == 'operator()':
        vals = [I.ev(a, st) for a in args]
        return fobj(I, st, cls, vals)
    return None


def fobj(I, st, cls, vals):
    G.facts = st.facts
    n = cls.split('<')[0].split('::')[-1]
    if n in ('plus', 'minus', 'multiplies', 'divides'):
        x, y = vals
        if x.k[0] == 's':
            return c.cat(x.k, x, y)
        op = {'plus': '+', 'minus': '-', 'multiplies': '*', 'divides': '/'}[n]
        return I.arith(op, x, y, {'k': 'int' if c.isint(x) and c.isint(y) else 'float', 'bits': 64}, st)
    if n == 'negate':
        return c.pneg(I.num(vals[0]))
    op = {'less': '<', 'greater': '>', 'less_equal': '<=', 'greater_equal': '>=', 'equal_to': '==', 'not_equal_to': '!='}.get(n)
    if op:
        return I.compare(op, vals[0], vals[1], st)
    if n == 'logical_not':
        return not_(I.tobool(vals[0]))
    if n == 'logical_and':
        return and_(I.tobool(vals[0]), I.tobool(vals[1]))
    if n == 'logical_or':
        return or_(I.tobool(vals[0]), I.tobool(vals[1]))
    return None


def invoke_builtin(I, fv, args, st):
    cls = fv.a[0]
    if cls.startswith('std::'):
        return fobj(I, st, cls, [I.asval(a, st) for a in args])
    return None


def m_exception(I, e, st, d, cls, name, o, p, args):
    if name == 'what':
        return I.pproj(I.alloc(st, _mk('top', 'si', 'message'), 'message'), ('i', ZERO))
    if name == 'operator=':
        return objptr(I, st, o, p)
    return UNIT()


def m_future(I, e, st, d, cls, name, o, p, args):
    v = I.ev(o, st)
    if name in ('get',):
        return fld(v, 'v')
    if name in ('wait', 'join', 'valid', 'joinable', 'detach'):
        return UNIT() if name in ('wait', 'join', 'detach') else TRUE
    if name in ('wait_for', 'wait_until'):
        # ready, timed out or deferred: any of them
        x = fld(v, 'v')
        return c.uf('status', 'i', x) if x.op != 'top' else A(c.fresh('status', 'i', 'nn'))
    if name == 'share':
        return v
    if name == 'operator=':
        x = I.ev(args[0], st)
        p = objptr(I, st, o, p)
        I.write(st, p, x)
        return p
    return None


def m_lock(I, e, st, d, cls, name, o, p, args):
    return UNIT()


def m_refwrap(I, e, st, d, cls, name, o, p, args):
    v = I.ev(o, st)
    if name == 'get' or name.startswith('operator ') or name.startswith('operator'):
        if name == 'operator()':
            return I.invoke(fld(v, 'p'), [I.lv(x, st) if x.get('lv') else I.ev(x, st) for x in args], st)
        return fld(v, 'p')
    return None


def m_chrono(I, e, st, d, cls, name, o, p, args):
    v = I.ev(o, st)
    if name == 'time_since_epoch':
        return v
    if name == 'count':
        return fld(v, 't')
    return None


METHODS = {
    'std::chrono::time_point': m_chrono, 'std::chrono::duration': m_chrono,
    'seq': m_seq, 'map': m_map, 'iterator': m_iter, 'reverse_iterator': m_rev, 'back_insert': m_backins,
    'std::function': m_function, 'std::pair': m_tuple, 'std::tuple': m_tuple, 'std::optional': m_optional,
    'std::unique_ptr': m_smart, 'std::shared_ptr': m_smart, 'std::__shared_ptr': m_smart, 'std::__shared_ptr_access': m_smart,
    'std::uniform_real_distribution': m_random, 'std::mersenne_twister_engine': m_random, 'std::random_device': m_random,
    'std::uniform_int_distribution': m_random, 'std::normal_distribution': m_random,
    'std::basic_ostream': m_stream, 'std::basic_ostringstream': m_stream, 'std::basic_stringstream': m_stream,
    'std::basic_ios': m_stream, 'std::ios_base': m_stream, 'std::basic_istream': m_stream,
    'std::less': m_fobj, 'std::greater': m_fobj, 'std::plus': m_fobj, 'std::minus': m_fobj, 'std::multiplies': m_fobj,
    'std::divides': m_fobj, 'std::negate': m_fobj, 'std::equal_to': m_fobj, 'std::not_equal_to': m_fobj,
    'std::less_equal': m_fobj, 'std::greater_equal': m_fobj, 'std::logical_not': m_fobj,
    'std::exception': m_exception, 'std::logic_error': m_exception, 'std::runtime_error': m_exception,
    'std::invalid_argument': m_exception, 'std::out_of_range': m_exception,
    'std::future': m_future, 'std::__basic_future': m_future, 'std::shared_future': m_future, 'std::thread': m_future, 'std::jthread': m_future,
    'std::mutex': m_lock, 'std::shared_mutex': m_lock, 'std::unique_lock': m_lock, 'std::lock_guard': m_lock,
    'std::reference_wrapper': m_refwrap,
}


# --------------------------------------------------------------------------
# free operators

def operator(I, e, st, d, op, es):
    tu = I.fr.tu
    if op in ('<<', '>>') and len(es) == 2:
        t0 = tu.type(es[0]['t'])
        if t0.get('rec') and 'stream' in t0['rec']:
            p = I.lv(es[0], st)
            quiet(I, es[1], st)
            return p
    vals = [I.ev(a, st) for a in es]
    G.facts = st.facts

    def isstr(a):
        t = tu.type(a['t'])
        return t.get('rec') in ('std::basic_string', 'std::basic_string_view')
    if len(es) == 2 and (isstr(es[0]) or isstr(es[1])):
        vals = [v if v.k[0] == 's' else (c.elems('si', [v]) if v.op == 'P' else cstr(I, st, v)) for v in vals]
        if op == '+':
            return c.cat('si', vals[0], vals[1])
    if op == '<=>' and len(vals) == 2:
        return I_rec('@order', x=vals[0], y=vals[1])
    if op in ('==', '!=', '<', '>', '<=', '>=') and len(vals) == 2:
        x, y = vals
        if x.op == 'rec' and x.a[0] == '@order':
            return I.compare(op, fld(x, 'x'), fld(x, 'y'), st)
        if y.op == 'rec' and y.a[0] == '@order':
            return I.compare(op, fld(y, 'y'), fld(y, 'x'), st)
        if x.op == 'rec' and x.a[0] == 'std::reverse_iterator':
            x, y = fld(y, 'p'), fld(x, 'p')
        if x.op == 'rec' and x.a[0] in ('std::unique_ptr', 'std::shared_ptr'):
            x = fld(x, 'p')
        if y.op == 'rec' and y.a[0] in ('std::unique_ptr', 'std::shared_ptr'):
            y = fld(y, 'p')
        if x.op == 'rec' and x.a[0] == 'std::function' and y.op == 'null':
            r = not_(I.tobool(x))
            return r if op == '==' else not_(r)
        if x.op == 'rec' and x.a[0] in MAPS and y.op == 'rec':
            x, y = fld(x, 'e'), fld(y, 'e')
        return I.compare(op, x, y, st)
    if op in ('+', '-') and len(vals) == 2:
        if I._ptrlike(vals[0]) and I._ptrlike(vals[1]):
            return I.ptrdiff(vals[0], vals[1])
        if I._ptrlike(vals[1]):
            return I.ptradd(vals[1], I.num(vals[0]))
        if I._ptrlike(vals[0]):
            w = I.num(vals[1])
            return I.ptradd(vals[0], w if op == '+' else c.pneg(w))
        if vals[0].op == 'rec' and vals[0].a[0] == 'std::reverse_iterator' and op == '-':
            return I.ptrdiff(fld(vals[1], 'p'), fld(vals[0], 'p'))
    if op == '|' and len(vals) == 2:
        pass
    return unsupported(I, 'operator ' + op)


# --------------------------------------------------------------------------
# free functions

def f_identity(I, e, st, d, es):
    if es[0].get('lv'):
        return I.lv(es[0], st)
    return I.alloc(st, I.ev(es[0], st), 'temporary', I.fr)


def f_begin(I, e, st, d, es):
    p = I.lv(es[0], st)
    v = I.read(st, p)
    if v.op == 'rec' and v.a[0] in MAPS:
        return entryptr(p, ZERO)
    return elem(I, p, ZERO)


def f_end(I, e, st, d, es):
    p = I.lv(es[0], st)
    v = I.read(st, p)
    if v.op == 'rec' and v.a[0] in MAPS:
        return entryptr(p, c.len_(fld(v, 'e')))
    return elem(I, p, c.len_(v))


def f_size(I, e, st, d, es):
    v = I.ev(es[0], st)
    if v.op == 'rec':
        v = fld(v, 'e')
    return c.len_(v)


def targs(d):
    return d.get('targs') or []


def f_get(I, e, st, d, es):
    tu = I.fr.tu
    ta = targs(d)
    i = None
    for x in ta:
        if isinstance(x, dict) and 'int' in x:
            i = x['int']
            break
    if i is None:
        unsupported(I, 'get by type')
    t = tu.type(es[0]['t'])
    p = I.lv(es[0], st)
    v = I.read(st, p)
    if v.k[0] == 's':
        q = elem(I, p, C(i))
        I.check_elem(q, st)
        return q
    r = t.get('rec')
    n = fieldname(r, i)
    et = t['targs'][i] if t.get('targs') and i < len(t['targs']) else None
    q = I.pproj(p, ('f', n))
    if isinstance(et, int) and tu.type(et).get('ref'):
        return I.read(st, q)
    return q


def f_make_tuple(I, e, st, d, es):
    vals = [I.ev(a, st) for a in es]
    return _mk('rec', 'o', 'std::tuple', tuple(('f%d' % i, v) for i, v in enumerate(vals)))


def f_make_pair(I, e, st, d, es):
    vals = [I.ev(a, st) for a in es]
    return _mk('rec', 'o', 'std::pair', (('first', vals[0]), ('second', vals[1])))


def f_tie(I, e, st, d, es):
    vals = [I.lv(a, st) for a in es]
    return _mk('rec', 'o', 'std::tuple', tuple(('f%d' % i, v) for i, v in enumerate(vals)))


def f_tuple_cat(I, e, st, d, es):
    out = []
    for a in es:
        v = I.ev(a, st)
        out.extend(x for n, x in v.a[1])
    return _mk('rec', 'o', 'std::tuple', tuple(('f%d' % i, v) for i, v in enumerate(out)))


def f_apply(I, e, st, d, es):
    f = I.lv(es[0], st) if es[0].get('lv') else I.ev(es[0], st)
    tp = I.lv(es[1], st)
    v = I.read(st, tp)
    args = []
    if v.op == 'rec':
        for n, x in v.a[1]:
            args.append(x if I._ptrlike(x) else I.pproj(tp, ('f', n)))
    elif v.op == 'elems':
        args = [elem(I, tp, C(i)) for i in range(len(v.a[0]))]
    else:
        unsupported(I, 'apply')
    return I.invoke(f, args, st)


def f_invoke(I, e, st, d, es):
    f = I.lv(es[0], st) if es[0].get('lv') else I.ev(es[0], st)
    return I.invoke(f, [I.lv(x, st) if x.get('lv') else I.ev(x, st) for x in es[1:]], st)


def num1(fn):
    def h(I, e, st, d, es):
        v = I.num(I.ev(es[0], st))
        G.facts = st.facts
        return fn(I, st, v)
    return h


def sqrt_f(I, st, v):
    return c.sqrt_(v)


def floor_f(I, st, v):
    return c.floor_(v)


def ceil_f(I, st, v):
    return c.pneg(c.floor_(c.pneg(v)))


def round_f(I, st, v):
    half = C(c.Fraction(1, 2))
    return ite(ge0(v), c.floor_(c.padd(v, half)), c.pneg(c.floor_(c.padd(c.pneg(v), half))))


def trig(name):
    return lambda I, st, v: c.uf(name, 'r', v) if c.isconst(v) is False or not _trig0(name, v) else _trig0(name, v)


def _trig0(name, v):
    if not v.d:
        return {'sin': ZERO, 'cos': ONE, 'tan': ZERO, 'atan': ZERO, 'asin': ZERO, 'exp': ONE, 'sinh': ZERO, 'cosh': ONE,
                'tanh': ZERO, 'cbrt': ZERO}.get(name)
    if v is ONE and name == 'log':
        return ZERO
    return None


def isnan_f(I, st, v):
    return FALSE


def isfinite_f(I, st, v):
    return TRUE if not any(a is c.INF for a in c.atoms_of(v)) else FALSE


NUM1 = {'abs': lambda I, st, v: c.abs_(v), 'fabs': lambda I, st, v: c.abs_(v), 'sqrt': sqrt_f, 'floor': floor_f,
        'ceil': ceil_f, 'round': round_f, 'trunc': lambda I, st, v: c.trunc_(v), 'isnan': isnan_f, 'isfinite': isfinite_f,
        'isinf': lambda I, st, v: not_(isfinite_f(I, st, v)), 'lround': round_f, 'llround': round_f}
for _n in ('sin', 'cos', 'tan', 'atan', 'asin', 'acos', 'exp', 'log', 'log2', 'log10', 'sinh', 'cosh', 'tanh', 'cbrt', 'exp2',
           'log1p', 'expm1', 'tgamma', 'erf'):
    NUM1[_n] = trig(_n)


def power(I, st, x, y):
    n = c.cint(y)
    if n is not None and 0 <= n <= 16:
        return c.ppow(x, n)
    if n is not None and -16 <= n < 0:
        return c.pinv(c.ppow(x, -n))
    if c.isconst(y) and c.cval(y) == c.Fraction(1, 2):
        return c.sqrt_(x)
    return c.uf('pow', 'r', x, y)


def f_pow(I, e, st, d, es):
    x, y = I.num(I.ev(es[0], st)), I.num(I.ev(es[1], st))
    G.facts = st.facts
    return power(I, st, x, y)


def f_hypot(I, e, st, d, es):
    r = ZERO
    for a in es:
        v = I.num(I.ev(a, st))
        r = c.padd(r, c.pmul(v, v))
    return c.sqrt_(r)


def f_fma(I, e, st, d, es):
    x, y, z = [I.num(I.ev(a, st)) for a in es]
    return c.padd(c.pmul(x, y), z)


def f_fmod(I, e, st, d, es):
    x, y = [I.num(I.ev(a, st)) for a in es]
    return c.psub(x, c.pmul(y, c.trunc_(c.pdiv(x, y))))


def f_atan2(I, e, st, d, es):
    x, y = [I.num(I.ev(a, st)) for a in es]
    return c.uf('atan2', 'r', x, y)


def f_copysign(I, e, st, d, es):
    x, y = [I.num(I.ev(a, st)) for a in es]
    return ite(ge0(y), c.abs_(x), c.pneg(c.abs_(x)))


def f_signbit(I, e, st, d, es):
    return lt(I.num(I.ev(es[0], st)), ZERO)


def f_minmax2(which):
    def h(I, e, st, d, es):
        if len(es) == 1 or len(es) == 2 and I.fr.tu.kind(es[0]['t'])[0] == 's':
            v = I.ev(es[0], st)
            if v.k in ('si', 'sr'):
                I.bounds(st, v, ZERO)
                x = c.fresh('x', 'i', 'nn')
                G.facts = st.facts
                n = c.len_(v)
                return c.fmm(which)(n, x, c.at(v, A(x)))
            unsupported(I, which)
        x, y = I.ev(es[0], st), I.ev(es[1], st)
        G.facts = st.facts
        if len(es) == 3:
            f = I.ev(es[2], st)
            t = I.tobool(I.invoke(f, [y, x] if which == 'min' else [x, y], st))
            return ite(t, y, x)
        if x.op != 'P' or y.op != 'P':
            t = I.compare('<', y, x, st) if which == 'min' else I.compare('<', x, y, st)
            return ite(t, y, x)
        return (c.min_ if which == 'min' else c.max_)(x, y)
    return h


def f_minmax_pair(I, e, st, d, es):
    if len(es) == 1:
        unsupported(I, 'minmax of a list')
    x, y = I.ev(es[0], st), I.ev(es[1], st)
    G.facts = st.facts
    return _mk('rec', 'o', 'std::pair', (('first', c.min_(x, y)), ('second', c.max_(x, y))))


def f_clamp(I, e, st, d, es):
    v, lo, hi = [I.num(I.ev(a, st)) for a in es[:3]]
    G.facts = st.facts
    return ite(lt(v, lo), lo, ite(lt(hi, v), hi, v))


def f_lerp(I, e, st, d, es):
    a, b, t = [I.num(I.ev(x, st)) for x in es]
    return c.padd(a, c.pmul(t, c.psub(b, a)))


def f_swap(I, e, st, d, es):
    p, q = I.lv(es[0], st), I.lv(es[1], st)
    x, y = I.read(st, p), I.read(st, q)
    I.write(st, p, y)
    I.write(st, q, x)
    return UNIT()


def f_iter_swap(I, e, st, d, es):
    p, q = I.ev(es[0], st), I.ev(es[1], st)
    I.check_elem(p, st)
    I.check_elem(q, st)
    x, y = I.read(st, p), I.read(st, q)
    I.write(st, p, y)
    I.write(st, q, x)
    return UNIT()


def f_exchange(I, e, st, d, es):
    p = I.lv(es[0], st)
    x = I.read(st, p)
    v = I.ev(es[1], st)
    I.write(st, p, v)
    return x


def f_to_string(I, e, st, d, es):
    v = I.ev(es[0], st)
    if v.op == 'P' and c.isconst(v) and c.isint(v):
        from .interp import text
        return text(str(c.cval(v)))
    return c.uf('to_string', 'si', I.num(v) if v.op == 'P' or v.k == 'b' else v)


def f_bit_cast(I, e, st, d, es):
    v = I.num(I.ev(es[0], st))
    tu = I.fr.tu
    k = tu.kind(d['ret'])
    if k == 'i':
        return c.uf('bits', 'i', v)
    for a in c.atoms_of(v):
        if a.op == 'uf' and a.a[0] == 'bits' and c.A(a) is v:
            return a.a[1][0]
    return c.uf('frombits', k, v)


def f_advance(I, e, st, d, es):
    p = I.lv(es[0], st)
    n = I.num(I.ev(es[1], st))
    I.write(st, p, I.ptradd(I.read(st, p), n))
    return UNIT()


def f_next(I, e, st, d, es):
    v = I.ev(es[0], st)
    n = I.num(I.ev(es[1], st)) if len(es) > 1 else ONE
    return I.ptradd(v, n)


def f_prev(I, e, st, d, es):
    v = I.ev(es[0], st)
    n = I.num(I.ev(es[1], st)) if len(es) > 1 else ONE
    return I.ptradd(v, c.pneg(n))


def f_distance(I, e, st, d, es):
    x, y = I.ev(es[0], st), I.ev(es[1], st)
    return I.ptrdiff(y, x)


def f_back_inserter(I, e, st, d, es):
    return I_rec('std::back_insert_iterator', p=I.lv(es[0], st))


def f_ref(I, e, st, d, es):
    return I_rec('std::reference_wrapper', p=I.lv(es[0], st))


# output of algorithms --------------------------------------------------------

def put(I, st, outroot, i, x):
    """store x through the output iterator kept in root outroot (at step i)"""
    o = st.store[outroot]
    if o.op == 'rec' and o.a[0] == 'std::back_insert_iterator':
        cp = fld(o, 'p')
        v = I.read(st, cp)
        I.write(st, cp, append(v, x))
        return
    q = I.ptradd(o, i)
    I.check_elem(q, st)
    v = x
    I.write(st, q, v)


def outend(I, st, o, n):
    if o.op == 'rec':
        return o
    return I.ptradd(o, n)


def callee(I, e, st):
    """callable argument of an algorithm: a place that lives during the call"""
    if e.get('lv'):
        p = I.lv(e, st)
        return p
    return I.alloc(st, I.ev(e, st), 'callable', I.fr)


def args_range(I, e, st, es):
    """(first pointer, length, remaining argument nodes); accepts ranges"""
    tu = I.fr.tu
    k0 = tu.kind(es[0]['t'])
    if k0[0] == 's' and not (len(es) > 1 and tu.type(es[0]['t'])['k'] == 'carray'):
        p = I.lv(es[0], st)
        return elem(I, p, ZERO), c.len_(I.read(st, p)), es[1:]
    a, b = I.ev(es[0], st), I.ev(es[1], st)
    if a.op == 'rec' and a.a[0] == 'std::reverse_iterator':
        unsupported(I, 'algorithm on reverse iterators')
    if a.op == 'ite':
        a = as_elem(I, a) or a
    s, n = rng(I, st, a, b)
    return a, n, es[2:]


def skip_policy(I, st, es):
    """drop an execution policy"""
    t = I.fr.tu.type(es[0]['t'])
    if t.get('rec') and 'execution' in t['rec']:
        return es[1:]
    return es


def f_for_each(I, e, st, d, es):
    es = skip_policy(I, st, es)
    a, n, rest = args_range(I, e, st, es)
    f = callee(I, rest[0], st)

    def body(z, i):
        I.invoke(f, [I.ptradd(a, i)], z)
        return z
    run(I, st, n, body)
    return I.read(st, f)


def run(I, st, n, body):
    from .interp import Dead
    r = I.counted(st, n, body)
    if r is None:
        raise Dead()
    st.store, st.facts = r.store, r.facts
    G.facts = st.facts


def f_transform(I, e, st, d, es):
    es = skip_policy(I, st, es)
    a, n, rest = args_range(I, e, st, es)
    if len(rest) == 2:
        o = I.ev(rest[0], st)
        f = callee(I, rest[1], st)
        b = None
    else:
        b = I.ev(rest[0], st)
        o = I.ev(rest[1], st)
        f = callee(I, rest[2], st)
        if b.op == 'ptr':
            bs, bi = seq_at(I, st, b)
            I.require(st, le(c.padd(bi, n), c.len_(bs)), 'bounds', 'second range')
    root = I.newroot('out')
    st.store[root] = o

    def body(z, i):
        args = [I.ptradd(a, i)]
        if b is not None:
            args.append(I.ptradd(b, i))
        v = I.invoke(f, args, z)
        v = I.asval(v, z)
        put(I, z, root, i, outval(I, z, root, v))
        return z
    run(I, st, n, body)
    st.store.pop(root, None)
    return outend(I, st, o, n)


def outval(I, z, root, v):
    o = z.store[root]
    k = None
    try:
        if o.op == 'rec':
            k = I.read(z, fld(o, 'p')).k
        elif o.op == 'ptr' and o.a[1]:
            k = I.read(z, contptr(o)).k
    except Exception:
        k = None
    if k in ('si', 'sr') and v.k == 'b':
        return ind(v)
    if k == 'si' and v.op == 'P' and not c.isint(v):
        return c.trunc_(v)
    if k == 'sb' and v.op == 'P':
        return not_(eq0(v))
    return v


def f_copy(I, e, st, d, es):
    es = skip_policy(I, st, es)
    a, n, rest = args_range(I, e, st, es)
    o = I.ev(rest[0], st)
    s = seq_at(I, st, a)
    w = c.slice_(*s, n)
    if o.op == 'rec' and o.a[0] == 'std::back_insert_iterator':
        cp = fld(o, 'p')
        v = I.read(st, cp)
        I.write(st, cp, c.cat(v.k, v, conv_seq(I, w, v.k)))
        return o
    return blockwrite(I, st, o, w)


def f_copy_n(I, e, st, d, es):
    a = I.ev(es[0], st)
    n = I.num(I.ev(es[1], st))
    o = I.ev(es[2], st)
    s, i = seq_at(I, st, a)
    I.require(st, le(c.padd(i, n), c.len_(s)), 'bounds', 'copy_n source')
    w = c.slice_(s, i, n)
    if o.op == 'rec' and o.a[0] == 'std::back_insert_iterator':
        cp = fld(o, 'p')
        v = I.read(st, cp)
        I.write(st, cp, c.cat(v.k, v, w))
        return o
    return blockwrite(I, st, o, w)


def blockwrite(I, st, o, w):
    q = as_elem(I, o)
    if q is None:
        unsupported(I, 'output iterator')
    cp = contptr(q)
    v = I.read(st, cp)
    i = q.a[1][-1][1]
    n = c.len_(w)
    I.require(st, and_(ge0(i), le(c.padd(i, n), c.len_(v))), 'bounds', 'output range')
    G.facts = st.facts
    I.write(st, cp, c.upd(v, i, conv_seq(I, w, v.k)))
    return I.ptradd(q, n)


def f_fill(I, e, st, d, es):
    es = skip_policy(I, st, es)
    a, n, rest = args_range(I, e, st, es)
    x = I.ev(rest[0], st)
    v = I.read(st, contptr(a))
    if v.k in ('si', 'sr') and x.k == 'b':
        x = ind(x)
    return blockwrite(I, st, a, c.rep(n, x, v.k))


def f_fill_n(I, e, st, d, es):
    a = I.ev(es[0], st)
    n = I.num(I.ev(es[1], st))
    x = I.ev(es[2], st)
    if a.op == 'rec' and a.a[0] == 'std::back_insert_iterator':
        cp = fld(a, 'p')
        v = I.read(st, cp)
        I.write(st, cp, c.cat(v.k, v, c.rep(n, x, v.k)))
        return a
    v = I.read(st, contptr(a))
    return blockwrite(I, st, a, c.rep(n, x, v.k))


def f_iota(I, e, st, d, es):
    a, n, rest = args_range(I, e, st, es)
    x0 = I.num(I.ev(rest[0], st))
    v = I.read(st, contptr(a))
    x = c.fresh('x', 'i', 'nn')
    w = c.comp(n, x, c.elems(v.k, [c.padd(x0, A(x))]))
    blockwrite(I, st, a, w)
    return UNIT()


def f_generate(I, e, st, d, es):
    a, n, rest = args_range(I, e, st, es)
    f = callee(I, rest[0], st)
    root = I.newroot('out')
    st.store[root] = a

    def body(z, i):
        v = I.invoke(f, [], z)
        put(I, z, root, i, outval(I, z, root, I.asval(v, z)))
        return z
    run(I, st, n, body)
    st.store.pop(root, None)
    return UNIT()


def f_generate_n(I, e, st, d, es):
    a = I.ev(es[0], st)
    n = I.num(I.ev(es[1], st))
    f = callee(I, es[2], st)
    root = I.newroot('out')
    st.store[root] = a

    def body(z, i):
        v = I.invoke(f, [], z)
        put(I, z, root, i, outval(I, z, root, I.asval(v, z)))
        return z
    run(I, st, n, body)
    st.store.pop(root, None)
    return outend(I, st, a, n)


def f_accumulate(I, e, st, d, es):
    es = skip_policy(I, st, es)
    a, n, rest = args_range(I, e, st, es)
    tu = I.fr.tu
    if rest:
        x0 = I.ev(rest[0], st)
        # accumulation happens in the type of the initial value
        t0 = tu.type(rest[0]['t'])
    else:
        x0 = ZERO
        t0 = {'k': 'float'}
    f = callee(I, rest[1], st) if len(rest) > 1 else None
    root = I.newroot('acc')
    st.store[root] = x0

    def body(z, i):
        x = I.ptradd(a, i)
        acc = z.store[root]
        if f is None:
            v = I.read(z, x)
            if acc.k[0] == 's':
                r = c.cat(acc.k, acc, v)
            else:
                r = c.padd(I.num(acc), I.num(v))
                if t0['k'] in ('int', 'uint'):
                    r = c.trunc_(r)
        else:
            r = I.asval(I.invoke(f, [acc, x], z), z)
            if t0['k'] in ('int', 'uint') and r.op == 'P':
                r = c.trunc_(r)
            if r.k == 'b' and t0['k'] != 'bool':
                r = ind(r)
        z.store[root] = r
        return z
    run(I, st, n, body)
    return st.store.pop(root)


def f_inner_product(I, e, st, d, es):
    a, n, rest = args_range(I, e, st, es)
    b = I.ev(rest[0], st)
    x0 = I.ev(rest[1], st)
    f = callee(I, rest[2], st) if len(rest) > 2 else None
    g = callee(I, rest[3], st) if len(rest) > 3 else None
    tu = I.fr.tu
    t0 = tu.type(rest[1]['t'])
    s, j = seq_at(I, st, b)
    I.require(st, le(c.padd(j, n), c.len_(s)), 'bounds', 'second range')
    root = I.newroot('acc')
    st.store[root] = x0

    def body(z, i):
        x, y = I.ptradd(a, i), I.ptradd(b, i)
        pr = I.asval(I.invoke(g, [x, y], z), z) if g is not None else c.pmul(I.num(I.read(z, x)), I.num(I.read(z, y)))
        acc = z.store[root]
        r = I.asval(I.invoke(f, [acc, pr], z), z) if f is not None else c.padd(acc, pr)
        if t0['k'] in ('int', 'uint') and r.op == 'P':
            r = c.trunc_(r)
        z.store[root] = r
        return z
    run(I, st, n, body)
    return st.store.pop(root)


def f_transform_reduce(I, e, st, d, es):
    es = skip_policy(I, st, es)
    a, n, rest = args_range(I, e, st, es)
    vals0 = rest
    tu = I.fr.tu
    if len(rest) == 3 and tu.kind(rest[0]['t']) != 'o':
        # init, reduce, transform
        x0 = I.ev(rest[0], st)
        f, g, b = callee(I, rest[1], st), callee(I, rest[2], st), None
    elif len(rest) == 2:
        b = I.ev(rest[0], st)
        x0 = I.ev(rest[1], st)
        f = g = None
    else:
        b = I.ev(rest[0], st)
        x0 = I.ev(rest[1], st)
        f, g = callee(I, rest[2], st), callee(I, rest[3], st)
    root = I.newroot('acc')
    st.store[root] = x0

    def body(z, i):
        x = I.ptradd(a, i)
        if b is None:
            pr = I.asval(I.invoke(g, [x], z), z)
        elif g is None:
            I.check_elem(I.ptradd(b, i), z)
            pr = c.pmul(I.read(z, x), I.read(z, I.ptradd(b, i)))
        else:
            I.check_elem(I.ptradd(b, i), z)
            pr = I.asval(I.invoke(g, [x, I.ptradd(b, i)], z), z)
        acc = z.store[root]
        z.store[root] = I.asval(I.invoke(f, [acc, pr], z), z) if f is not None else c.padd(acc, pr)
        return z
    run(I, st, n, body)
    return st.store.pop(root)


def f_partial_sum(I, e, st, d, es):
    a, n, rest = args_range(I, e, st, es)
    o = I.ev(rest[0], st)
    s, i0 = seq_at(I, st, a)
    x = c.fresh('x', 'i', 'nn')
    y = c.fresh('y', 'i', 'nn')
    G.facts = st.facts
    w = c.comp(n, x, c.elems(s.k, [c.sum_(c.padd(A(x), ONE), y, c.at(s, c.padd(i0, A(y))))]))
    if o.op == 'rec':
        cp = fld(o, 'p')
        v = I.read(st, cp)
        I.write(st, cp, c.cat(v.k, v, w))
        return o
    return blockwrite(I, st, o, w)


def search(I, st, n, test):
    """index of the first i < n for which test holds, n if none"""
    R = I.newroot('result')
    st.store[R] = n
    fr = I.fr
    ob = fr.brk

    def body(z, i):
        t = test(z, i)
        dd = I.decide(z, t)
        if dd is True:
            z.store[R] = i
            fr.brk.append(z)
            return None
        if dd is False:
            return z
        z1 = z.fork(t)
        z1.store[R] = i
        fr.brk.append(z1)
        return z.fork(not_(t))
    run(I, st, n, body)
    return st.store.pop(R)


def pred_test(I, f, a, neg=False):
    def t(z, i):
        r = I.tobool(I.asval(I.invoke(f, [I.ptradd(a, i)], z), z))
        return not_(r) if neg else r
    return t


def f_find_if(I, e, st, d, es):
    es = skip_policy(I, st, es)
    a, n, rest = args_range(I, e, st, es)
    f = callee(I, rest[0], st)
    return I.ptradd(a, search(I, st, n, pred_test(I, f, a, d['name'].endswith('_not'))))


def f_find(I, e, st, d, es):
    es = skip_policy(I, st, es)
    a, n, rest = args_range(I, e, st, es)
    x = I.ev(rest[0], st)
    if x.op == 'ptr' and I.read(st, contptr(a)).k == 'ssi':
        x = cstr(I, st, x)
    return I.ptradd(a, search(I, st, n, lambda z, i: I.compare('==', I.read(z, I.ptradd(a, i)), x, z)))


def f_anyof(mode):
    def h(I, e, st, d, es):
        es = skip_policy(I, st, es)
        a, n, rest = args_range(I, e, st, es)
        f = callee(I, rest[0], st)
        j = search(I, st, n, pred_test(I, f, a, mode == 'all'))
        G.facts = st.facts
        found = lt(j, n)
        return found if mode == 'any' else not_(found)
    return h


def f_count_if(I, e, st, d, es):
    es = skip_policy(I, st, es)
    a, n, rest = args_range(I, e, st, es)
    isif = d['name'].endswith('_if')
    f = callee(I, rest[0], st) if isif else None
    x = None if isif else I.ev(rest[0], st)
    root = I.newroot('count')
    st.store[root] = ZERO

    def body(z, i):
        if isif:
            t = I.tobool(I.asval(I.invoke(f, [I.ptradd(a, i)], z), z))
        else:
            t = I.compare('==', I.read(z, I.ptradd(a, i)), x, z)
        G.facts = z.facts
        z.store[root] = c.padd(z.store[root], ite(t, ONE, ZERO))
        return z
    run(I, st, n, body)
    return st.store.pop(root)


def f_copy_if(I, e, st, d, es):
    a, n, rest = args_range(I, e, st, es)
    o = I.ev(rest[0], st)
    f = callee(I, rest[1], st)
    if not (o.op == 'rec' and o.a[0] == 'std::back_insert_iterator'):
        unsupported(I, 'copy_if output')
    neg = d['name'].startswith('remove')
    cp = fld(o, 'p')

    def body(z, i):
        p = I.ptradd(a, i)
        t = I.tobool(I.asval(I.invoke(f, [p], z), z))
        if neg:
            t = not_(t)
        v = I.read(z, cp)
        G.facts = z.facts
        I.write(z, cp, c.cat(v.k, v, ite(t, c.elems(v.k, [I.read(z, p)]), c.empty(v.k))))
        return z
    run(I, st, n, body)
    return o


def f_remove_if(I, e, st, d, es):
    """the kept elements are moved to the front; what follows is unspecified"""
    a, n, rest = args_range(I, e, st, es)
    f = callee(I, rest[0], st) if d['name'] == 'remove_if' else None
    x = None if f is not None else I.ev(rest[0], st)
    cp = contptr(a)
    v = I.read(st, cp)
    R = I.newroot('kept')
    st.store[R] = c.empty(v.k)

    def body(z, i):
        p = I.ptradd(a, i)
        if f is not None:
            t = I.tobool(I.asval(I.invoke(f, [p], z), z))
        else:
            t = I.compare('==', I.read(z, p), x, z)
        w = z.store[R]
        G.facts = z.facts
        z.store[R] = c.cat(v.k, w, ite(t, c.empty(v.k), c.elems(v.k, [I.read(z, p)])))
        return z
    run(I, st, n, body)
    kept = st.store.pop(R)
    v = I.read(st, cp)
    i0 = a.a[1][-1][1]
    m = c.len_(kept)
    G.facts = st.facts
    rest_ = c.fresh('rest', v.k, c.psub(n, m))
    I.write(st, cp, c.cat(v.k, c.slice_(v, ZERO, i0), kept, rest_, c.slice_(v, c.padd(i0, n), c.psub(c.len_(v), c.padd(i0, n)))))
    return I.ptradd(a, m)


def cmp_term(I, st, f, k):
    """comparator as a condition on two fixed symbols of element kind k"""
    if k in ('i', 'r'):
        x, y = A(c.sym('sort.x', k)), A(c.sym('sort.y', k))
    elif k[0] == 's':
        x, y = c.sym('sort.x', k, A(c.sym('sort.n', 'i', 'nn'))), c.sym('sort.y', k, A(c.sym('sort.n', 'i', 'nn')))
    else:
        x, y = c.sym('sort.x', k), c.sym('sort.y', k)
    if f is None:
        return I.compare('<', x, y, st)
    z = st.copy()
    rec0 = I.rec
    I.rec = False
    try:
        r = I.tobool(I.asval(I.invoke(f, [x, y], z), z))
    finally:
        I.rec = rec0
    return r


def f_sort(I, e, st, d, es):
    es = skip_policy(I, st, es)
    a, n, rest = args_range(I, e, st, es)
    f = callee(I, rest[0], st) if rest else None
    s, i0 = seq_at(I, st, a)
    w = c.slice_(s, i0, n)
    if istop(w):
        return UNIT()
    # comparator with events on arbitrary elements
    t = cmp_term(I, st, f, c.elemkind(w.k))
    cmp_events(I, st, f, a, n)
    G.facts = st.facts
    r = sorted_seq(w, t)
    blockwrite(I, st, a, r)
    return UNIT()


def cmp_events(I, st, f, a, n):
    """record what the comparator does on arbitrary elements of the range"""
    if f is None or not I.rec:
        return
    x, y = c.fresh('i', 'i', 'nn'), c.fresh('j', 'i', 'nn')
    z = st.fork(and_(lt(A(x), n), lt(A(y), n)))
    if z.facts.bad:
        return
    from .interp import Dead
    try:
        I.invoke(f, [I.ptradd(a, A(x)), I.ptradd(a, A(y))], z)
    except Dead:
        pass


def sorted_seq(w, t):
    n = c.cint(c.len_(w))
    if n is not None and n <= 1:
        return w
    return _mk('uf', w.k, 'sort', (w, t))


def istop(v):
    return v.op == 'top'


def f_nth_element(I, e, st, d, es):
    # the element at nth is the one of the sorted range
    a = I.ev(es[0], st)
    b = I.ev(es[2], st)
    s0, n = rng(I, st, a, b)
    f = callee(I, es[3], st) if len(es) > 3 else None
    s, i0 = seq_at(I, st, a)
    w = c.slice_(s, i0, n)
    t = cmp_term(I, st, f, c.elemkind(w.k))
    G.facts = st.facts
    blockwrite(I, st, a, sorted_seq(w, t))
    return UNIT()


def f_partial_sort(I, e, st, d, es):
    return f_nth_element(I, e, st, d, es)


def f_is_sorted(I, e, st, d, es):
    a, n, rest = args_range(I, e, st, es)
    s, i0 = seq_at(I, st, a)
    f = callee(I, rest[0], st) if rest else None
    x = c.fresh('x', 'i', 'nn')
    u, v = c.at(s, c.padd(i0, A(x))), c.at(s, c.padd(i0, c.padd(A(x), ONE)))
    t = I.compare('<', v, u, st) if f is None else I.tobool(I.asval(I.invoke(f, [v, u], st.copy()), st))
    G.facts = st.facts
    return not_(c.ex(c.psub(n, ONE), x, t))


def f_reverse(I, e, st, d, es):
    a, n, rest = args_range(I, e, st, es)
    s, i0 = seq_at(I, st, a)
    blockwrite(I, st, a, reverse(c.slice_(s, i0, n)))
    return UNIT()


def f_rotate(I, e, st, d, es):
    a, m, b = [I.ev(x, st) for x in es[:3]]
    s0, n1 = rng(I, st, a, m)
    s1, n2 = rng(I, st, m, b)
    w = c.cat(s0[0].k, c.slice_(*s1, n2), c.slice_(*s0, n1))
    blockwrite(I, st, a, w)
    return I.ptradd(a, n2)


def f_equal(I, e, st, d, es):
    es = skip_policy(I, st, es)
    a, n, rest = args_range(I, e, st, es)
    if not rest:
        unsupported(I, 'equal')
    tu = I.fr.tu
    if tu.kind(rest[0]['t'])[0] == 's':
        q = I.lv(rest[0], st)
        b = elem(I, q, ZERO)
        m = c.len_(I.read(st, q))
        rest = rest[1:]
    else:
        b = I.ev(rest[0], st)
        rest = rest[1:]
        m = None
        if rest and not is_callable(I, tu, rest[0]):
            b2 = I.ev(rest[0], st)
            s, m = rng(I, st, b, b2)
            rest = rest[1:]
    f = callee(I, rest[0], st) if rest else None
    s2, j0 = seq_at(I, st, b)
    s1, i0 = seq_at(I, st, a)
    G.facts = st.facts
    if m is None:
        I.require(st, le(c.padd(j0, n), c.len_(s2)), 'bounds', 'second range')
    else:
        dd = I.decide(st, eq(n, m))
        if dd is False:
            return FALSE
    if f is None:
        r = eq(c.slice_(s1, i0, n), c.slice_(s2, j0, m if m is not None else n))
        if m is not None:
            r = and_(eq(n, m), r)
        return r
    z = st
    cond = TRUE
    if m is not None and I.decide(st, eq(n, m)) is None:
        # compare only under equal lengths
        z1 = st.fork(eq(n, m))
        z2 = st.fork(not_(eq(n, m)))
        j = search(I, z1, n, lambda q, i: not_(I.tobool(I.asval(I.invoke(f, [I.ptradd(a, i), I.ptradd(b, i)], q), q))))
        G.facts = z1.facts
        v1 = not_(lt(j, n))
        ms, v = I.merge_vals([(z1, v1), (z2, FALSE)])
        st.store, st.facts = ms.store, ms.facts
        G.facts = st.facts
        return v
    j = search(I, st, n, lambda q, i: not_(I.tobool(I.asval(I.invoke(f, [I.ptradd(a, i), I.ptradd(b, i)], q), q))))
    G.facts = st.facts
    return not_(lt(j, n))


def is_callable(I, tu, a):
    t = tu.type(a['t'])
    if t['k'] == 'fn' or t.get('lambda'):
        return True
    if t['k'] == 'ptr':
        return tu.type(t['pointee'])['k'] == 'fn'
    if t['k'] == 'record':
        r = t.get('rec') or ''
        if iterlike(r):
            return False
        return True
    return False


def f_minmax_element(which):
    def h(I, e, st, d, es):
        a, n, rest = args_range(I, e, st, es)
        s, i0 = seq_at(I, st, a)
        f = callee(I, rest[0], st) if rest else None
        k = c.elemkind(s.k)
        G.facts = st.facts
        if f is None and k in ('i', 'r'):
            x = c.fresh('x', 'i', 'nn')
            val = c.fmm(which)(n, x, c.at(s, c.padd(i0, A(x))))
            y = c.fresh('y', 'i', 'nn')
            j = c.first(n, y, eq0(c.psub(c.at(s, c.padd(i0, A(y))), val)))
            return I.ptradd(a, j)
        # general: fold keeping the best index
        R = I.newroot('best')
        st.store[R] = ZERO

        def body(z, i):
            best = z.store[R]
            p, q = I.ptradd(a, i), I.ptradd(a, best)
            if f is None:
                x, y = I.read(z, p), I.read(z, q)
                t = I.compare('<', x, y, z) if which == 'min' else I.compare('<', y, x, z)
            else:
                t = I.tobool(I.asval(I.invoke(f, [p, q] if which == 'min' else [q, p], z), z))
            G.facts = z.facts
            z.store[R] = ite(t, i, best)
            return z
        run(I, st, n, body)
        j = st.store.pop(R)
        G.facts = st.facts
        return I.ptradd(a, ite(eq0(n), ZERO, j))
    return h


def f_minmax_elements(I, e, st, d, es):
    p = f_minmax_element('min')(I, e, st, d, es)
    q = f_minmax_element('max')(I, e, st, d, es)
    return _mk('rec', 'o', 'std::pair', (('first', p), ('second', q)))


def f_async(I, e, st, d, es):
    # tasks are run in order: they share nothing mutable (checked separately)
    tu = I.fr.tu
    es = list(es)
    if tu.type(es[0]['t']).get('u', '').endswith('launch') or (tu.type(es[0]['t'])['k'] in ('int', 'uint')):
        es = es[1:]
    f = callee(I, es[0], st)
    v = I.invoke(f, [I.asval(I.lv(x, st), st) if x.get('lv') else I.ev(x, st) for x in es[1:]], st)
    return I_rec('std::future', v=I.asval(v, st))


def f_make_unique(I, e, st, d, es):
    tu = I.fr.tu
    ta = targs(d)
    t = ta[0]
    v = emplace(I, st, tu, t, es) if es else default_object(I, st, tu, t)
    return I_rec('std::unique_ptr' if 'unique' in d['name'] else 'std::shared_ptr', p=I.alloc(st, v, 'heap'))


def f_lower_bound(I, e, st, d, es):
    """on a sorted range: first position whose element is not less"""
    a, n, rest = args_range(I, e, st, es)
    x = I.ev(rest[0], st)
    f = callee(I, rest[1], st) if len(rest) > 1 else None
    up = d['name'] == 'upper_bound'

    def test(z, i):
        p = I.ptradd(a, i)
        if f is None:
            v = I.read(z, p)
            return I.compare('<', x, v, z) if up else not_(I.compare('<', v, x, z))
        if up:
            return I.tobool(I.asval(I.invoke(f, [x, p], z), z))
        return not_(I.tobool(I.asval(I.invoke(f, [p, x], z), z)))
    return I.ptradd(a, search(I, st, n, test))


def f_unique(I, e, st, d, es):
    unsupported(I, 'unique')


def f_exit(I, e, st, d, es):
    I.event('exit', st, TRUE, 'process exit')
    from .interp import Dead
    raise Dead()


def f_noop(I, e, st, d, es):
    for a in es:
        I.ev(a, st)
    return UNIT()


def f_swap_ranges(I, e, st, d, es):
    a, n, rest = args_range(I, e, st, es)
    b = I.ev(rest[0], st)
    w1 = c.slice_(*seq_at(I, st, a), n)
    w2 = c.slice_(*seq_at(I, st, b), n)
    blockwrite(I, st, a, w2)
    blockwrite(I, st, b, w1)
    return I.ptradd(b, n)


def f_unique(I, e, st, d, es):
    """of neighbours that are alike the first is kept"""
    a, n, rest = args_range(I, e, st, es)
    f = callee(I, rest[0], st) if rest else None
    cp = contptr(a)
    v = I.read(st, cp)
    i0 = a.a[1][-1][1]
    R, L = I.newroot('kept'), I.newroot('last')
    st.store[R] = c.empty(v.k)
    st.store[L] = ZERO

    def body(z, i):
        p = I.ptradd(a, i)
        q = I.ptradd(a, z.store[L])
        if f is None:
            t = I.compare('==', I.read(z, q), I.read(z, p), z)
        else:
            t = I.tobool(I.asval(I.invoke(f, [q, p], z), z))
        t = and_(not_(eq0(i)), t)
        w = z.store[R]
        G.facts = z.facts
        z.store[R] = c.cat(v.k, w, ite(t, c.empty(v.k), c.elems(v.k, [I.read(z, p)])))
        z.store[L] = ite(t, z.store[L], i)
        return z
    run(I, st, n, body)
    kept = st.store.pop(R)
    st.store.pop(L)
    v = I.read(st, cp)
    m = c.len_(kept)
    G.facts = st.facts
    rest_ = c.fresh('rest', v.k, c.psub(n, m))
    I.write(st, cp, c.cat(v.k, c.slice_(v, ZERO, i0), kept, rest_, c.slice_(v, c.padd(i0, n), c.psub(c.len_(v), c.padd(i0, n)))))
    return I.ptradd(a, m)


def f_adjacent_find(I, e, st, d, es):
    a, n, rest = args_range(I, e, st, es)
    f = callee(I, rest[0], st) if rest else None

    def test(z, i):
        p, q = I.ptradd(a, i), I.ptradd(a, c.padd(i, ONE))
        if f is None:
            return I.compare('==', I.read(z, p), I.read(z, q), z)
        return I.tobool(I.asval(I.invoke(f, [p, q], z), z))
    G.facts = st.facts
    m = ite(c.gt0(n), c.psub(n, ONE), ZERO)
    j = search(I, st, m, test)
    G.facts = st.facts
    return I.ptradd(a, ite(lt(j, m), j, n))


def f_adjacent_difference(I, e, st, d, es):
    a, n, rest = args_range(I, e, st, es)
    o = I.ev(rest[0], st)
    f = callee(I, rest[1], st) if len(rest) > 1 else None
    root = I.newroot('out')
    st.store[root] = o
    s, i0 = seq_at(I, st, a)

    def body(z, i):
        G.facts = z.facts
        x = c.at(s, c.padd(i0, i))
        y = c.at(s, c.padd(i0, c.psub(i, ite(eq0(i), ZERO, ONE))))
        if f is None:
            v = ite(eq0(i), x, c.psub(I.num(x), I.num(y)))
        else:
            v = ite(eq0(i), x, I.asval(I.invoke(f, [x, y], z), z))
        put(I, z, root, i, outval(I, z, root, v))
        return z
    run(I, st, n, body)
    st.store.pop(root, None)
    return outend(I, st, o, n)


def f_replace(I, e, st, d, es):
    es = skip_policy(I, st, es)
    a, n, rest = args_range(I, e, st, es)
    f = callee(I, rest[0], st) if d['name'] == 'replace_if' else None
    x = None if f is not None else I.ev(rest[0], st)
    y = I.ev(rest[1], st)

    def body(z, i):
        p = I.ptradd(a, i)
        if f is not None:
            t = I.tobool(I.asval(I.invoke(f, [p], z), z))
        else:
            t = I.compare('==', I.read(z, p), x, z)
        G.facts = z.facts
        I.write(z, p, ite(t, y, I.read(z, p)))
        return z
    run(I, st, n, body)
    return UNIT()


def f_partition(I, e, st, d, es):
    """those that match first; in order, or as std::partition swaps them"""
    es = skip_policy(I, st, es)
    a, n, rest = args_range(I, e, st, es)
    f = callee(I, rest[0], st)
    s, i0 = seq_at(I, st, a)
    K, R = I.newroot('kept'), I.newroot('others')
    st.store[K] = c.empty(s.k)
    st.store[R] = c.empty(s.k)
    root = I.newroot('items')

    def body(z, i):
        p = I.ptradd(a, i)
        t = I.tobool(I.asval(I.invoke(f, [p], z), z))
        x = c.elems(s.k, [I.read(z, p)])
        G.facts = z.facts
        z.store[K] = c.cat(s.k, z.store[K], ite(t, x, c.empty(s.k)))
        z.store[R] = c.cat(s.k, z.store[R], ite(t, c.empty(s.k), x))
        return z
    run(I, st, n, body)
    kept, others = st.store.pop(K), st.store.pop(R)
    m = c.len_(kept)
    G.facts = st.facts
    if d['name'] == 'stable_partition':
        w = c.cat(s.k, kept, others)
    else:
        w = c.cat(s.k, _mk('uf', s.k, 'shuffled', (kept,)), _mk('uf', s.k, 'shuffled', (others,)))
    cp = contptr(a)
    v = I.read(st, cp)
    I.write(st, cp, c.cat(v.k, c.slice_(v, ZERO, i0), w, c.slice_(v, c.padd(i0, n), c.psub(c.len_(v), c.padd(i0, n)))))
    return I.ptradd(a, m)


def f_partition_copy(I, e, st, d, es):
    a, n, rest = args_range(I, e, st, es)
    o1, o2 = I.ev(rest[0], st), I.ev(rest[1], st)
    f = callee(I, rest[2], st)
    for o in (o1, o2):
        if not (o.op == 'rec' and o.a[0] == 'std::back_insert_iterator'):
            unsupported(I, 'partition_copy output')
    c1, c2 = fld(o1, 'p'), fld(o2, 'p')

    def body(z, i):
        p = I.ptradd(a, i)
        t = I.tobool(I.asval(I.invoke(f, [p], z), z))
        for q, b in ((c1, t), (c2, not_(t))):
            v = I.read(z, q)
            G.facts = z.facts
            I.write(z, q, c.cat(v.k, v, ite(b, c.elems(v.k, [I.read(z, p)]), c.empty(v.k))))
        return z
    run(I, st, n, body)
    return I_rec('std::pair', **{'first': o1, 'second': o2})


def f_lexicographical(I, e, st, d, es):
    a, n, rest = args_range(I, e, st, es)
    b = I.ev(rest[0], st)
    b2 = I.ev(rest[1], st)
    (s2, j0), m = rng(I, st, b, b2)
    if len(rest) > 2:
        unsupported(I, 'lexicographical_compare with a comparator')
    s1, i0 = seq_at(I, st, a)
    G.facts = st.facts
    x, y = c.slice_(s1, i0, n), c.slice_(s2, j0, m)
    return _mk('uf', 'b', 'seqless', (x, y))


def f_exclusive_scan(I, e, st, d, es):
    a, n, rest = args_range(I, e, st, es)
    o = I.ev(rest[0], st)
    x0 = I.ev(rest[1], st)
    if len(rest) > 2:
        unsupported(I, 'exclusive_scan operation')
    s, i0 = seq_at(I, st, a)
    x = c.fresh('x', 'i', 'nn')
    y = c.fresh('y', 'i', 'nn')
    G.facts = st.facts
    w = c.comp(n, x, c.elems(s.k, [c.padd(I.num(x0), c.sum_(A(x), y, c.at(s, c.padd(i0, A(y)))))]))
    if o.op == 'rec':
        cp = fld(o, 'p')
        v = I.read(st, cp)
        I.write(st, cp, c.cat(v.k, v, w))
        return o
    return blockwrite(I, st, o, w)


def f_gcd(I, e, st, d, es):
    x, y = [I.num(I.ev(a, st)) for a in es]
    return c.uf('gcd', 'i', x, y)


def f_memcpy(I, e, st, d, es):
    unsupported(I, d['name'])


def f_bind_front(I, e, st, d, es):
    f = I.ev(es[0], st)
    return _mk('rec', 'o', 'bind_front', (('f', f),) + tuple(('a%d' % i, I.ev(a, st)) for i, a in enumerate(es[1:])))


FUNCS = {
    'std::forward': f_identity, 'std::move': f_identity, 'std::as_const': f_identity, 'std::addressof': None,
    'std::begin': f_begin, 'std::cbegin': f_begin, 'std::end': f_end, 'std::cend': f_end, 'std::size': f_size, 'std::ssize': f_size,
    'std::data': f_begin,
    'std::empty': lambda I, e, st, d, es: eq0(f_size(I, e, st, d, es)),
    'std::get': f_get, 'std::make_tuple': f_make_tuple, 'std::make_pair': f_make_pair, 'std::tie': f_tie,
    'std::forward_as_tuple': f_tie, 'std::tuple_cat': f_tuple_cat, 'std::apply': f_apply, 'std::invoke': f_invoke,
    'std::pow': f_pow, 'std::hypot': f_hypot, 'std::fma': f_fma, 'std::fmod': f_fmod, 'std::atan2': f_atan2,
    'std::copysign': f_copysign, 'std::signbit': f_signbit,
    'std::min': f_minmax2('min'), 'std::max': f_minmax2('max'), 'std::fmin': f_minmax2('min'), 'std::fmax': f_minmax2('max'),
    'std::minmax': f_minmax_pair, 'std::clamp': f_clamp, 'std::lerp': f_lerp,
    'std::swap': f_swap, 'std::iter_swap': f_iter_swap, 'std::exchange': f_exchange,
    'std::to_string': f_to_string, 'std::bit_cast': f_bit_cast,
    'std::advance': f_advance, 'std::next': f_next, 'std::prev': f_prev, 'std::distance': f_distance,
    'std::back_inserter': f_back_inserter, 'std::ref': f_ref, 'std::cref': f_ref,
    'std::for_each': f_for_each, 'std::transform': f_transform, 'std::copy': f_copy, 'std::move_range': f_copy,
    'std::copy_n': f_copy_n, 'std::fill': f_fill, 'std::fill_n': f_fill_n, 'std::iota': f_iota,
    'std::generate': f_generate, 'std::generate_n': f_generate_n, 'std::accumulate': f_accumulate, 'std::reduce': f_accumulate,
    'std::inner_product': f_inner_product, 'std::transform_reduce': f_transform_reduce, 'std::partial_sum': f_partial_sum,
    'std::inclusive_scan': f_partial_sum,
    'std::find_if': f_find_if, 'std::find_if_not': f_find_if, 'std::find': f_find,
    'std::any_of': f_anyof('any'), 'std::all_of': f_anyof('all'), 'std::none_of': f_anyof('none'),
    'std::count_if': f_count_if, 'std::count': f_count_if, 'std::copy_if': f_copy_if, 'std::remove_copy_if': f_copy_if,
    'std::remove_if': f_remove_if, 'std::remove': f_remove_if,
    'std::sort': f_sort, 'std::stable_sort': f_sort, 'std::nth_element': f_nth_element, 'std::partial_sort': f_partial_sort,
    'std::is_sorted': f_is_sorted, 'std::reverse': f_reverse, 'std::rotate': f_rotate, 'std::equal': f_equal,
    'std::min_element': f_minmax_element('min'), 'std::max_element': f_minmax_element('max'), 'std::minmax_element': f_minmax_elements,
    'std::async': f_async, 'std::make_unique': f_make_unique, 'std::make_shared': f_make_unique,
    'std::lower_bound': f_lower_bound, 'std::upper_bound': f_lower_bound, 'std::swap_ranges': f_swap_ranges,
    'std::exit': f_exit, 'std::abort': f_exit, 'std::terminate': f_exit, 'std::gcd': f_gcd,
    'std::setprecision': f_noop, 'std::setw': f_noop, 'std::endl': f_noop, 'std::flush': f_noop,
    'std::is_constant_evaluated': lambda I, e, st, d, es: FALSE,
    'std::__is_constant_evaluated': lambda I, e, st, d, es: FALSE,
}
FUNCS.update({
    'std::unique': f_unique, 'std::adjacent_find': f_adjacent_find, 'std::adjacent_difference': f_adjacent_difference,
    'std::replace': f_replace, 'std::replace_if': f_replace, 'std::partition': f_partition, 'std::stable_partition': f_partition,
    'std::partition_copy': f_partition_copy, 'std::lexicographical_compare': f_lexicographical, 'std::exclusive_scan': f_exclusive_scan,
})


def f_outside(I, e, st, d, es):
    """a value that comes from outside the program, another one at every call"""
    for x in es:
        quiet(I, x, st)
    return A(c.fresh(d['name'], 'i', 'nn'))


for _n in ('time', 'clock', 'rand', 'random', 'getpid', 'lrand48'):
    FUNCS[_n] = FUNCS['std::' + _n] = f_outside


def f_now(I, e, st, d, es):
    return I_rec('std::chrono::time_point', t=A(c.fresh('now', 'i', 'nn')))


for _n in ('steady_clock', 'system_clock', 'high_resolution_clock'):
    FUNCS['std::chrono::_V2::%s::now' % _n] = FUNCS['std::chrono::%s::now' % _n] = f_now
FUNCS['std::addressof'] = lambda I, e, st, d, es: I.lv(es[0], st)
for _n, _f in NUM1.items():
    FUNCS['std::' + _n] = num1(_f)
del FUNCS['std::move_range']


def f_move(I, e, st, d, es):
    if len(es) >= 3:
        return f_copy(I, e, st, d, es)
    return f_identity(I, e, st, d, es)


FUNCS['std::move'] = f_move
