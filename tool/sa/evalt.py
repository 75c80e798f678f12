"""Values of terms at sample points.

The normal forms of two summaries that are not identical are told apart by
evaluating them at points that satisfy the facts of the path (random
interpretation): different values refute the equality with a witness, equal
values everywhere prove nothing.  Nothing of the analysed program is run."""
import bisect, math, random, hashlib, time
from fractions import Fraction
from functools import cmp_to_key
from . import core as c
from .core import T


class Undef(Exception):
    """no value at this point (unknown part, access outside, division by 0)"""


class Out(Exception):
    """too large"""


def close(x, y):
    if x.__class__ is float or y.__class__ is float:
        try:
            x = float(x)
            y = float(y)
        except OverflowError:
            return False
        if x != x and y != y:
            return True
        if x == y:
            return True
        return abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y))
    return x == y


class Lazy:
    """a long sequence; its items are worked out when asked for"""
    __slots__ = ('n', 'f', 'memo', 'depth')

    def __init__(s, n, f, *of):
        s.n = n
        s.f = f
        s.memo = {}
        s.depth = 1 + max([x.depth for x in of if x.__class__ in LAZY], default=0)
        if s.depth > 12:
            # too many layers: settle it now
            v = list(s)
            s.f = v.__getitem__
            s.depth = 1

    def __len__(s):
        return s.n

    def __getitem__(s, i):
        if i.__class__ is slice:
            a, b, _ = i.indices(s.n)
            if b - a <= LONG:
                return [s[j] for j in range(a, b)]
            return Lazy(b - a, lambda j: s[a + j], s)
        if not 0 <= i < s.n:
            raise IndexError(i)
        v = s.memo.get(i)
        if v is None:
            v = s.memo[i] = s.f(i)
        return v

    def __iter__(s):
        if s.n > EAGER:
            raise Out()
        for i in range(s.n):
            yield s[i]


class Version(Lazy):
    """a long sequence after some writes: the latest version holds the written
    items, the older ones what they had before"""
    __slots__ = ('base', 'store', 'nxt', 'diff')

    def __init__(s, base, p, w):
        s.n = len(base)
        s.f = s.read
        s.memo = None
        s.depth = 1
        s.nxt = s.diff = None
        if base.__class__ is Version and base.store is not None:
            old = {}
            st = base.store
            for j in range(len(w)):
                old[p + j] = base.read(p + j)
                st[p + j] = w[j]
            s.base = base.base
            s.store = st
            base.store = None
            base.diff = old
            base.nxt = s
        else:
            s.base = base
            s.store = {p + j: w[j] for j in range(len(w))}

    def read(s, i):
        v = s
        n = 0
        while v.store is None:
            if i in v.diff:
                return v.diff[i]
            v = v.nxt
            n += 1
            if n > 5000:
                raise Out()
        if i in v.store:
            return v.store[i]
        return v.base[i]

    def __getitem__(s, i):
        if i.__class__ is slice:
            return Lazy.__getitem__(s, i)
        if not 0 <= i < s.n:
            raise IndexError(i)
        return s.read(i)


LAZY = (Lazy, Version)
LONG = 300          # items above which sequences are worked out on demand
EAGER = 70000       # items above which nothing is worked out one by one
probes = []         # positions of interest


def places(n):
    if n <= 2500:
        return range(n)
    out = set(range(40)) | set(range(n - 40, n)) | {n // 2, n // 3, n // 4, n // 8}
    for x in probes:
        for y in (x, 2 * x, 3 * x, x + n // 2):
            out.update(range(y - 4, y + 5))
    out.update(i * 104729 % n for i in range(300))
    return sorted(i for i in out if 0 <= i < n)


def same(x, y):
    """equality of values"""
    if x.__class__ in LAZY or y.__class__ in LAZY:
        if not isinstance(x, (list, tuple, Lazy)) or not isinstance(y, (list, tuple, Lazy)):
            return False
        if len(x) != len(y):
            return False
        return all(same(x[i], y[i]) for i in places(len(x)))
    if isinstance(x, (list, tuple)) and isinstance(y, (list, tuple)):
        return len(x) == len(y) and all(same(a, b) for a, b in zip(x, y))
    if isinstance(x, bool) or isinstance(y, bool):
        return x is y if isinstance(x, bool) and isinstance(y, bool) else bool(x) == bool(y)
    if isinstance(x, (int, float, Fraction)) and isinstance(y, (int, float, Fraction)):
        return close(x, y)
    return x == y


def digest(*xs):
    h = hashlib.blake2b(repr(xs).encode(), digest_size=8).digest()
    return int.from_bytes(h, 'big')


def canon(v):
    """hashable, equal values have equal forms"""
    if v.__class__ in LAZY:
        return (len(v),) + tuple(canon(v[i]) for i in places(len(v)))
    if isinstance(v, (list, tuple)):
        if len(v) > 2500:
            return (len(v),) + tuple(canon(v[i]) for i in places(len(v)))
        return tuple(canon(x) for x in v)
    if isinstance(v, float):
        if v == int(v) if abs(v) < 1e15 else False:
            return int(v)
        return float('%.9g' % v)
    if isinstance(v, Fraction):
        if v.denominator == 1:
            return int(v)
        return float('%.9g' % float(v))
    return v


_frees = {}
NONE = frozenset()
BINDERS = ('comp', 'tab', 'sum', 'fmin', 'fmax', 'first', 'ex')


def frees(t):
    """variables bound further out that occur in the term"""
    r = _frees.get(t)
    if r is not None:
        return r
    op = t.op
    if op == 'bv' or op == 'hv':
        r = frozenset((t,))
    elif op == 'sym':
        r = frozenset((t,)) if t.a[0].startswith('sort.') else _freeargs(t.a)
    elif op in BINDERS:
        body = t.a[1]
        r = frees(t.a[0]) | (frees(body) - {c.bv(1 + body.lv, 'i')})
    elif op == 'mu':
        body = t.a[1]
        lv = 1 + body.lv
        v = c.bv(lv, 'i')
        r = frees(t.a[0]) | frees(t.a[2]) | frozenset(x for x in frees(body) if x is not v and not (x.op == 'hv' and x.a[1] == lv))
    elif op == 'uf' and t.a[0] == 'sort':
        r = frees(t.a[1][0]) | frozenset(x for x in frees(t.a[1][1]) if x.op != 'sym')
    else:
        r = _freeargs(t.a)
    if not r:
        r = NONE
    _frees[t] = r
    return r


def _freeargs(xs):
    r = NONE
    for x in xs:
        if x.__class__ is T:
            y = frees(x)
        elif x.__class__ is tuple:
            y = _freeargs(x)
        else:
            continue
        if y:
            r = r | y if r else y
    return r


def isopen(t):
    return bool(frees(t))


POOL = [Fraction(x) for x in (0, 1, 2, 3, -1, -2, 5, -4)] + [Fraction(1, 2), Fraction(-3, 2), Fraction(7, 4), Fraction(10), Fraction(-7)]
CHARS = [ord(x) for x in 'xyzxy01A']


class Point:
    """an assignment of values to the symbols, made up on demand"""

    def __init__(self, rng, consts=(), subs=None, size=4, reals=None, focus=None):
        self.focus = focus
        self.over = False       # some value is beyond the size in focus
        self.rng = rng
        self.val = {}
        self.memo = {}
        self.prefix = {}
        self.inner = {}
        self.common = []
        self.bv = {}
        self.consts = consts
        self.subs = subs or {}
        self.size = size
        self.steps = 0
        self.busy = set()
        self.unset = None       # a value for what was never set
        self.mode = rng.random()
        self.end = time.time() + 2.5
        self.budget = 400000 if focus is None or focus < 200 else 3000000

    def real(self):
        r = self.rng
        if self.mode < 0.15:
            return Fraction(r.randrange(0, 4))
        if self.consts and r.random() < 0.2:
            x = r.choice(self.consts)
            y = r.random()
            if y < 0.5:
                return Fraction(x)
            return Fraction(x) * r.choice([Fraction(1, 2), 2, -1, Fraction(3, 2)])
        if self.mode < 0.5:
            return r.choice(POOL)
        return Fraction(r.randrange(-400, 400), r.choice((1, 2, 4, 8)))

    def integer(self, nn):
        r = self.rng
        if self.focus is not None and r.random() < (0.1 if self.over and self.focus > 150 else 0.4):
            x = self.focus * r.choice((1, 1, 1, 2, 4)) + r.choice((-1, 0, 0, 1, 1, 2))
            if x >= 0 or not nn:
                if x > self.focus:
                    self.over = True
                return x
        if self.consts and r.random() < 0.15:
            x = int(r.choice(self.consts)) + r.choice((-1, 0, 0, 1))
            if -20 <= x <= 20 and (x >= 0 or not nn):
                return x
        return r.randrange(0, self.size + 1) if nn else r.randrange(-2, self.size + 1)

    def symbol(self, t):
        v = self.val.get(t)
        if v is not None:
            return v
        s = self.subs.get(t)
        if s is not None and t not in self.busy:
            self.busy.add(t)
            try:
                v = self.ev(s)
            finally:
                self.busy.discard(t)
        else:
            v = self.make(t)
        self.val[t] = v
        return v

    def make(self, t):
        name = t.a[0]
        if name.startswith('sort.'):
            raise Undef()
        if name == 'INF':
            return float('inf')
        k = t.k
        if k == 'i':
            return self.integer('nn' in t.a[1:])
        if k == 'r':
            return self.real()
        if k == 'b':
            return self.rng.random() < 0.5
        if k in ('sr', 'si'):
            n = self.num(self.ev(t.a[1]))
            if n < 0 or n > 10 ** 9 or n != int(n):
                raise Undef()
            n = int(n)
            if n > 400:
                if k == 'sr':
                    return self.long(n, [self.real() for _ in range(997)])
                return self.long(n, [self.rng.randrange(0, 4) for _ in range(997)])
            if k == 'sr' and 0.15 <= self.mode < 0.4 and n:
                return self.alike(n)
            if k == 'sr':
                return [self.real() for _ in range(n)]
            if name.startswith('s#'):
                return [self.rng.choice(CHARS) for _ in range(n)]
            return [self.rng.randrange(0, 4) for _ in range(n)]
        raise Undef()

    def alike(self, n):
        """n values that are, but for one perhaps, those of every other sequence of the point"""
        r = self.rng
        c = self.common
        if self.mode < 0.27:
            if not c:
                c.append(self.real())
            v = c * n
        else:
            while len(c) < n:
                c.append(self.real())
            v = c[:n]
        if r.random() < 0.75:
            i = r.choice((0, n - 1, r.randrange(n)))
            v[i] = v[i] + r.choice((1, -1, Fraction(1, 4), -3)) if r.random() < 0.5 else self.real()
        return v

    def long(self, n, vals):
        """n values drawn from vals; neighbours and far items differ"""
        m = len(vals)
        return Lazy(n, lambda i: vals[(i * 31 + i // m * 17) % m] + (i // m if i >= m else 0))

    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if not isinstance(v, (int, float, Fraction)):
            raise Undef()
        return v

    # ------------------------------------------------------------------
    def ev(self, t):
        self.steps += 1
        if self.steps > self.budget:
            raise Out()
        if not self.steps & 4095 and time.time() > self.end:
            raise Out()
        op = t.op
        if op == 'bv' or op == 'hv':
            try:
                return self.bv[t]
            except KeyError:
                raise Undef()
        if op == 'sym':
            if t.a[0].startswith('sort.'):
                try:
                    return self.bv[t]
                except KeyError:
                    raise Undef()
            return self.symbol(t)
        fr = _frees.get(t)
        if fr is None:
            fr = frees(t)
        if fr:
            if op in BINDERS or op == 'uf':
                # the same again for the same values of the outer variables
                bv = self.bv
                key = [t]
                for x in fr:
                    y = bv.get(x)
                    if y.__class__ is not int:
                        key = None
                        break
                    key.append(y)
                if key is not None:
                    key = tuple(key)
                    v = self.inner.get(key)
                    if v is None:
                        v = self.inner[key] = getattr(self, 'v_' + op)(t)
                        if len(self.inner) > 20000:
                            self.inner.clear()
                    return v
            return getattr(self, 'v_' + op)(t)
        m = self.memo
        if t in m:
            v = m[t]
            if v is Undef:
                raise Undef()
            return v
        try:
            v = getattr(self, 'v_' + op)(t)
        except Undef:
            m[t] = Undef
            raise
        m[t] = v
        return v

    def v_P(self, t):
        try:
            return self.v_P0(t)
        except Undef:
            if not any(a.op == 'ind' for m, cf in t.a[0] for a, e in m):
                raise
        # x - [c]*x needs no value of x where c holds
        parts = {}
        for m, cf in t.a[0]:
            x = cf
            rest = []
            for a, e in m:
                if a.op != 'ind':
                    rest.append((a, e))
                elif not self.ev(a.a[0]):
                    x = 0
                    break
            if x:
                k = tuple(rest)
                parts[k] = parts.get(k, 0) + x
        r = 0
        for k, x in parts.items():
            if not x:
                continue
            for a, e in k:
                y = self.num(self.ev(a))
                if y.__class__ is float and x.__class__ is Fraction:
                    x = float(x)
                if e < 0:
                    if y == 0:
                        raise Undef()
                    if y.__class__ is int:
                        y = Fraction(y)
                try:
                    x = x * y ** e
                except OverflowError:
                    raise Undef()
            r = r + x
        if r.__class__ is Fraction and r.denominator == 1:
            r = int(r)
        return r

    def v_P0(self, t):
        r = 0
        for m, cf in t.a[0]:
            # indicators first: a term that does not count needs no value
            zero = False
            for a, e in m:
                if a.op == 'ind' and not self.ev(a.a[0]):
                    zero = True
                    break
            if zero:
                continue
            x = cf
            for a, e in m:
                if a.op == 'ind':
                    continue
                y = self.num(self.ev(a))
                if y.__class__ is float and x.__class__ is Fraction:
                    x = float(x)
                if e < 0:
                    if y == 0:
                        raise Undef()
                    if y.__class__ is int:
                        y = Fraction(y)
                try:
                    x = x * y ** e
                except OverflowError:
                    raise Undef()
            try:
                r = r + x
            except OverflowError:
                raise Undef()
        if r.__class__ is Fraction and r.denominator == 1:
            r = int(r)
        return r

    def v_true(self, t):
        return True

    def v_false(self, t):
        return False

    def sign(self, p):
        v = self.num(self.ev(p))
        if v != v:
            raise Undef()
        if v.__class__ is float and v != 0:
            if abs(v) < 1e-12:
                raise Undef()        # undecided because of rounding
            if abs(v) < 1e-3 and p.op == 'P' and len(p.d) > 1:
                big = 0
                for m, cf in p.d.items():
                    x = abs(cf)
                    for y, e in m:
                        x = x * abs(self.num(self.ev(y))) ** e
                    if x > big:
                        big = x
                if abs(v) < 1e-12 * big:
                    raise Undef()
        return v

    def v_ge0(self, t):
        return self.sign(t.a[0]) >= 0

    def v_gt0(self, t):
        return self.sign(t.a[0]) > 0

    def v_eq0(self, t):
        return self.sign(t.a[0]) == 0

    def v_eqt(self, t):
        return same(self.ev(t.a[0]), self.ev(t.a[1]))

    def v_not(self, t):
        return not self.ev(t.a[0])

    def v_and(self, t):
        un = False
        for x in t.a[0]:
            try:
                if not self.ev(x):
                    return False
            except Undef:
                un = True
        if un:
            raise Undef()
        return True

    def v_or(self, t):
        un = False
        for x in t.a[0]:
            try:
                if self.ev(x):
                    return True
            except Undef:
                un = True
        if un:
            raise Undef()
        return False

    def v_ite(self, t):
        return self.ev(t.a[1]) if self.ev(t.a[0]) else self.ev(t.a[2])

    v_iteb = v_ite

    def v_ind(self, t):
        return 1 if self.ev(t.a[0]) else 0

    def v_idiv(self, t):
        x = self.num(self.ev(t.a[0]))
        y = self.num(self.ev(t.a[1]))
        if y == 0:
            raise Undef()
        q = abs(x) // abs(y)
        return q if (x >= 0) == (y >= 0) else -q

    def v_mod(self, t):
        x = self.num(self.ev(t.a[0]))
        y = self.num(self.ev(t.a[1]))
        if y == 0:
            raise Undef()
        q = abs(x) // abs(y)
        q = q if (x >= 0) == (y >= 0) else -q
        return x - q * y

    def v_inv(self, t):
        y = self.num(self.ev(t.a[0]))
        if y == 0:
            raise Undef()
        return 1.0 / y if y.__class__ is float else Fraction(1) / y

    def v_sqrt(self, t):
        y = self.num(self.ev(t.a[0]))
        if y < 0:
            raise Undef()
        try:
            return math.sqrt(y)
        except OverflowError:
            raise Undef()

    def v_abs(self, t):
        return abs(self.num(self.ev(t.a[0])))

    def v_min(self, t):
        return min(self.num(self.ev(x)) for x in t.a[0])

    def v_max(self, t):
        return max(self.num(self.ev(x)) for x in t.a[0])

    def v_trunc(self, t):
        v = self.num(self.ev(t.a[0]))
        self.stable(v)
        return math.trunc(v)

    def v_floor(self, t):
        v = self.num(self.ev(t.a[0]))
        self.stable(v)
        return math.floor(v)

    def stable(self, v):
        if v.__class__ is float:
            if v != v or abs(v) > 1e15:
                raise Undef()
            if abs(v - round(v)) < 1e-9:
                raise Undef()

    def v_len(self, t):
        return len(self.seq(t.a[0]))

    def seq(self, t):
        v = self.ev(t)
        if v.__class__ not in LAZY and not isinstance(v, (list, tuple)):
            raise Undef()
        return v

    def index(self, v):
        v = self.num(v)
        if v != int(v):
            raise Undef()
        return int(v)

    def v_at(self, t):
        s = self.seq(t.a[0])
        i = self.index(self.ev(t.a[1]))
        if not 0 <= i < len(s):
            raise Undef()
        return s[i]

    def v_slice(self, t):
        s = self.seq(t.a[0])
        a = self.index(self.ev(t.a[1]))
        n = self.index(self.ev(t.a[2]))
        if n == 0:
            return []
        if a < 0 or n < 0 or a + n > len(s):
            raise Undef()
        return s[a:a + n]

    def v_upd(self, t):
        s = self.seq(t.a[0])
        p = self.index(self.ev(t.a[1]))
        w = self.seq(t.a[2])
        m = len(w)
        if not m:
            return s
        if p < 0 or p + m > len(s):
            raise Undef()
        if s.__class__ in LAZY or w.__class__ in LAZY or len(s) > 2000:
            if m <= 64:
                return Version(s, p, w)
            s0 = s
            return Lazy(len(s0), lambda i: w[i - p] if p <= i < p + m else s0[i], s0, w)
        s = list(s)
        s[p:p + m] = w
        return s

    def v_cat(self, t):
        xs = [self.seq(x) for x in t.a[0]]
        if any(x.__class__ in LAZY for x in xs):
            starts = [0]
            for x in xs:
                starts.append(starts[-1] + len(x))

            def item(i):
                q = bisect.bisect_right(starts, i) - 1
                return xs[q][i - starts[q]]
            return Lazy(starts[-1], item, *xs)
        r = []
        for x in xs:
            r.extend(x)
        return r

    def v_elems(self, t):
        return [self.ev(x) for x in t.a[0]]

    def v_rec(self, t):
        return (str(t.a[0]),) + tuple(self.ev(x) for n, x in t.a[1])

    def v_fld(self, t):
        raise Undef()

    def v_tuple(self, t):
        return tuple(self.ev(x) for x in t.a[0])

    def v_null(self, t):
        return ('null',)

    def v_unit(self, t):
        return ('unit',)

    def v_ptr(self, t):
        out = []
        for p in t.a[1]:
            out.append((p[0], self.ev(p[1]) if p[1].__class__ is T else p[1]))
        return ('ptr', t.a[0], tuple(out))

    def v_fnref(self, t):
        return ('fn', t.id)

    def v_top(self, t):
        if self.unset is not None and t.a[0] == 'uninit':
            if t.k in ('i', 'r'):
                return Fraction(self.unset)
            if t.k == 'b':
                return self.unset > 0
        raise Undef()

    def v_oob(self, t):
        raise Undef()
    v_f = v_top

    # binders --------------------------------------------------------
    def rng_(self, t):
        n = self.index(self.ev(t.a[0]))
        if n > 300 and (n > EAGER or n * 4 > self.budget - self.steps):
            raise Out()
        return max(0, n)

    def later(self, t, n, width=None):
        """the items of a long sequence, each when it is needed"""
        body = t.a[1]
        v = c.bv(1 + body.lv, 'i')
        env = dict(self.bv)

        def within(i, f):
            old = self.bv
            self.bv = dict(env)
            self.bv[v] = i
            try:
                return f(body)
            finally:
                self.bv = old
        if width is None:
            return Lazy(n, lambda i: within(i, self.ev))
        rows = {}

        def item(i):
            q, j = divmod(i, width)
            r = rows.get(q)
            if r is None:
                r = rows[q] = within(q, self.seq)
                if len(r) != width:
                    raise Undef()
            return r[j]
        return Lazy(n * width, item)

    def bodies(self, t, stop=None):
        """values of the body for 0..n-1"""
        body = t.a[1]
        v = c.bv(1 + body.lv, 'i')
        old = self.bv.get(v)
        try:
            for i in range(self.rng_(t)):
                self.bv[v] = i
                yield i, body
        finally:
            if old is None:
                self.bv.pop(v, None)
            else:
                self.bv[v] = old

    def v_comp(self, t):
        n = self.index(self.ev(t.a[0]))
        if n > LONG:
            body = t.a[1]
            w = c.len_(body)
            if not c.has_bv(w, c.bv(1 + body.lv, 'i')):
                w = self.index(self.ev(w))
                if w <= 0:
                    return []
                return self.later(t, n, w)
        r = []
        for i, b in self.bodies(t):
            r.extend(self.seq(b))
        return r

    def v_tab(self, t):
        n = self.index(self.ev(t.a[0]))
        if n > LONG:
            return self.later(t, n)
        r = []
        for i, b in self.bodies(t):
            r.append(self.ev(b))
        return r

    def v_sum(self, t):
        n = self.index(self.ev(t.a[0]))
        if n > 8:
            # sums over a growing range are continued from the shorter ones
            body = t.a[1]
            v = c.bv(1 + body.lv, 'i')
            env = tuple((k, x) for k, x in self.bv.items() if k is not v and c.has_bv(body, k))
            if all(x.__class__ is int for k, x in env):
                pre = self.prefix.get((body, env))
                if pre is None:
                    pre = self.prefix[(body, env)] = [0]
                if len(pre) <= n:
                    if n > EAGER or (n - len(pre)) * 4 > self.budget - self.steps:
                        raise Out()
                    old = self.bv.get(v)
                    try:
                        for i in range(len(pre) - 1, n):
                            self.bv[v] = i
                            try:
                                pre.append(pre[-1] + self.num(self.ev(body)))
                            except OverflowError:
                                raise Undef()
                    finally:
                        if old is None:
                            self.bv.pop(v, None)
                        else:
                            self.bv[v] = old
                return pre[n]
        r = 0
        for i, b in self.bodies(t):
            x = self.num(self.ev(b))
            try:
                r = r + x
            except OverflowError:
                raise Undef()
        return r

    def v_fmin(self, t):
        xs = [self.num(self.ev(b)) for i, b in self.bodies(t)]
        return min(xs) if xs else float('inf')

    def v_fmax(self, t):
        xs = [self.num(self.ev(b)) for i, b in self.bodies(t)]
        return max(xs) if xs else float('-inf')

    def v_first(self, t):
        n = self.rng_(t)
        for i, b in self.bodies(t):
            if self.ev(b):
                return i
        return n

    def v_ex(self, t):
        un = False
        for i, b in self.bodies(t):
            try:
                if self.ev(b):
                    return True
            except Undef:
                un = True
        if un:
            raise Undef()
        return False

    def v_mu(self, t):
        n, body, v0, pick = t.a
        cur = [self.ev(x) for x in v0.a[0]]
        lv = 1 + body.lv
        bvi = c.bv(lv, 'i')
        hvs = {}
        self.hvs(body, lv, hvs, set())
        keys = [bvi] + list(hvs)
        old = {k: self.bv.get(k) for k in keys}
        try:
            for i in range(self.rng_(t)):
                self.bv[bvi] = i
                for k, q in hvs.items():
                    self.bv[k] = cur[q]
                cur = [self.ev(e) for e in body.a[0]]
        finally:
            for k in keys:
                if old[k] is None:
                    self.bv.pop(k, None)
                else:
                    self.bv[k] = old[k]
        return cur[pick]

    def hvs(self, t, lv, out, seen):
        if t in seen:
            return
        seen.add(t)
        if t.op == 'hv':
            if t.a[1] == lv:
                out[t] = t.a[0]
            return
        if not isopen(t):
            return
        st = list(t.a)
        while st:
            x = st.pop()
            if x.__class__ is T:
                self.hvs(x, lv, out, seen)
            elif x.__class__ is tuple:
                st.extend(x)

    # functions nothing is known about -------------------------------
    def v_uf(self, t):
        name, args = t.a[0], t.a[1]
        f = getattr(self, 'u_' + str(name).replace('.', '_').replace(':', '_'), None)
        if f is not None:
            return f(t, args)
        vals = [canon(self.ev(x)) for x in args]
        h = digest(str(name), vals)
        k = t.k
        if k == 'r':
            r = Fraction(h % 801 - 400, (1, 2, 4)[h // 1000 % 3])
            if self.mode < 0.5:
                r = POOL[h % len(POOL)]
            return r
        if k == 'i':
            return h % 5
        if k == 'b':
            return bool(h >> 7 & 1)
        if k in ('sr', 'si'):
            n = 1 + h % 3
            return [Fraction((h >> (8 * i)) % 17 - 8) for i in range(n)]
        return ('uf', str(name), tuple(vals))

    def u_sort(self, t, args):
        s = self.seq(args[0])
        cmp = args[1]
        sx = [y for y in self.syms(cmp) if y.a[0] == 'sort.x']
        sy = [y for y in self.syms(cmp) if y.a[0] == 'sort.y']
        sn = [y for y in self.syms(cmp) if y.a[0] == 'sort.n']

        def less(a, b):
            for z in sx:
                self.bv[z] = a
            for z in sy:
                self.bv[z] = b
            for z in sn:
                self.bv[z] = len(a)
            try:
                return self.ev(cmp)
            finally:
                for z in sx + sy + sn:
                    self.bv.pop(z, None)

        if len(s) <= 8 and any(less(a, b) and less(b, a) for i, a in enumerate(s) for b in s[:i + 1]):
            # no order: anything may come out
            y = sorted(s, key=lambda v: [float(z) for z in v] if isinstance(v, (list, tuple)) else float(v))
            return y[-1:] + y[:-1]

        def cm(a, b):
            x, y = less(a, b), less(b, a)
            if x and y:
                raise Undef()
            if not x and not y and not same(a, b):
                raise Undef()       # order of equivalent elements is open
            return -1 if x else (1 if y else 0)
        return sorted(s, key=cmp_to_key(cm))

    def syms(self, t):
        return [y for y in t.fs]

    def u_shuffled(self, t, args):
        """an order of its own: the last comes before the others"""
        s = list(self.seq(args[0]))
        return s[-1:] + s[:-1] if len(s) > 2 else s

    def u_reverse(self, t, args):
        return list(reversed(self.seq(args[0])))

    def u_seqless(self, t, args):
        a = self.seq(args[0])
        b = self.seq(args[1])
        return list(map(float, a)) < list(map(float, b)) if not any(isinstance(x, (list, tuple)) for x in a + b) else a < b

    def u_str_contains(self, t, args):
        a, b = self.seq(args[0]), self.seq(args[1])
        return any(a[i:i + len(b)] == b for i in range(len(a) - len(b) + 1))

    def u_to_string(self, t, args):
        v = self.num(self.ev(args[0]))
        if v.__class__ is float or v != int(v):
            raise Undef()
        return [ord(x) for x in str(int(v))]


def constants(ts):
    """interesting constants appearing in comparisons"""
    out = set()
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t.__class__ is tuple:
            st.extend(t)
            continue
        if t.__class__ is not T or t in seen:
            continue
        seen.add(t)
        if t.op in ('ge0', 'gt0', 'eq0'):
            d = t.a[0].d
            k = d.get((), 0)
            if k:
                out.add(Fraction(k))
                for m, cf in d.items():
                    if m != () and len(m) == 1:
                        out.add(Fraction(-k) / Fraction(cf))
        elif t.op in ('idiv', 'mod') and t.a[1].op == 'P' and set(t.a[1].d) == {()}:
            out.add(Fraction(t.a[1].d[()]))
        elif t.op in ('min', 'max'):
            for y in t.a[0]:
                if y.op == 'P' and set(y.d) == {()}:
                    out.add(Fraction(y.d[()]))
        st.extend(t.a)
    return sorted(x for x in out if abs(x) < 2 * 10 ** 6)[:40]


class Witness:
    def __init__(self, point, got=None, want=None):
        self.point = point
        self.got = got
        self.want = want

    def text(self):
        out = []
        for s, v in sorted(self.point.val.items(), key=lambda z: z[0].id):
            if s.a[0] == 'INF':
                continue
            out.append('%s=%s' % (s.a[0], fmt(v)))
        r = ', '.join(out)
        return r[:700]


def fmt(v):
    try:
        return fmt_(v)
    except (Undef, Out):
        return '(%s items)' % len(v)


def fmt_(v):
    if v.__class__ in LAZY:
        return '[%d items: ' % len(v) + ', '.join(fmt(v[i]) for i in range(min(6, len(v)))) + ', ...]'
    if isinstance(v, (list, tuple)):
        if len(v) > 60:
            return '[%d items: ' % len(v) + ', '.join(fmt(x) for x in v[:6]) + ', ...]'
        return '[' + ', '.join(fmt(x) for x in v) + ']'
    if isinstance(v, Fraction):
        return str(int(v)) if v.denominator == 1 else str(float(v))
    return str(v)


def focuses(consts):
    """sizes beyond the usual ones that the terms are sensitive to"""
    return sorted(set(abs(int(x)) for x in consts if x == int(x) and 4 <= abs(x) <= 2000000))


def samples(facts, terms, seed, tries, extra=(), limit=15):
    """points that satisfy the facts (and the extra conditions)"""
    lits = list(facts.order) + list(extra)
    consts = constants(lits + list(terms))
    subs = {}
    for a, q in facts.sub.items():
        if a.op == 'sym':
            subs[a] = q
    rng = random.Random(seed)
    foc = focuses(consts)
    end = time.time() + limit
    for n in range(tries):
        if time.time() > end:
            return
        p = Point(rng, consts, subs, size=3 if n % 3 else 5, focus=foc[n // 2 % len(foc)] if foc and n % 2 else None)
        ok = True
        try:
            for l in lits:
                if not p.ev(l):
                    ok = False
                    break
        except (Undef, Out):
            ok = False
        except ZeroDivisionError:
            ok = False
        if ok:
            yield p


def compare(facts, got, want, seed=1, tries=1500, enough=40):
    """('differ', witness) | ('agree', number of points)"""
    n = 0
    und = 0
    foc = focuses(constants(list(facts.order) + [got, want]))
    probes[:] = foc
    beyond = {x: 0 for x in foc[:8]}
    if foc:
        enough += min(120, 20 * len(foc))
    for p in samples(facts, (got, want), seed, tries):
        p.steps = 0
        p.end = time.time() + 2.5
        try:
            g = p.ev(got)
            w = p.ev(want)
            alike = same(g, w)
        except (Undef, Out):
            und += 1
            if und > 300:
                break
            continue
        except RecursionError:
            und += 20
            if und > 300:
                break
            continue
        if not alike:
            return 'differ', Witness(p, g, w)
        n += 1
        if p.over and p.focus in beyond:
            beyond[p.focus] += 1
        if n >= enough and all(x >= 6 for x in beyond.values()):
            break
    w = directed(facts, got, want, seed)
    if w is not None:
        return 'differ', w
    return 'agree', n


def indeterminate(facts, got, want, seed=1, tries=400, enough=40):
    """a witness that got depends on the value of something never set"""
    n = und = 0
    for p in samples(facts, (got, want), seed, tries):
        out = []
        for x in (1000003, -7000061):
            p.memo = {}
            p.inner = {}
            p.prefix = {}
            p.common = []
            p.steps = 0
            p.end = time.time() + 2.5
            p.unset = x
            try:
                out.append(canon(p.ev(got)))
            except (Undef, Out, RecursionError):
                break
        p.unset = None
        if len(out) < 2:
            und += 1
            if und > 60:
                return None
            continue
        if not same(out[0], out[1]):
            return Witness(p, 'depends on a value that is never set: ' + fmt(out[0]), 'a value')
        n += 1
        if n >= enough:
            return None
    return None


DELTAS = [Fraction(0)] + [Fraction(sg, k) for k in (3, 2000, 10 ** 5, 2 * 10 ** 7, 3 * 10 ** 9) for sg in (1, -1)]


def subterms(ts):
    seen = set()
    st = list(ts)
    while st:
        t = st.pop()
        if t.__class__ is tuple:
            st.extend(t)
        elif t.__class__ is T and t not in seen:
            seen.add(t)
            st.extend(t.a)
            if t.op == 'P':
                for m in t.d:
                    st.append(m)
    return seen


def edges(got, want):
    """(kind, term) of the conditions that only one of the two terms has: where they may part"""
    a = subterms((got,))
    b = subterms((want,))
    out = []
    for t in sorted(a ^ b, key=lambda x: x.id):
        if t.op in ('ge0', 'gt0', 'eq0'):
            out.append(('sign', t.a[0]))
        elif t.op in ('floor', 'trunc'):
            out.append(('step', t.a[0]))
        elif t.op in ('min', 'max') and len(t.a[0]) > 1:
            for x in t.a[0][1:]:
                out.append(('cross', (t.a[0][0], x)))
    return out


class Moved:
    """a family of points along one direction"""

    def __init__(self, base, kind, sym=None, at=None):
        self.base = base
        self.kind = kind
        self.sym = sym
        self.at = at

    def point(self, s):
        b = self.base
        p = Point(random.Random(5), b.consts, b.subs, b.size)
        p.bv = dict(b.bv)
        p.end = time.time() + 1
        p.budget = 200000
        for t, v in b.val.items():
            if t in b.subs:
                continue
            if self.kind == 'scale':
                if t.k == 'r':
                    v = v * s
                elif t.k == 'sr':
                    v = [x * s for x in v]
            elif t is self.sym:
                if self.at is None:
                    v = v + s
                else:
                    v = list(v)
                    v[self.at] = v[self.at] + s
            p.val[t] = v
        return p


def solve(fam, g, target):
    """parameters at which g comes to the target, exact when g is affine"""
    def f(s):
        try:
            return g(fam.point(s)) - target
        except (Undef, Out, ZeroDivisionError, OverflowError, TypeError, RecursionError):
            return None
    if fam.kind == 'scale':
        grid = [Fraction(10) ** k for k in range(-12, 4, 3)]
    else:
        z, o = f(Fraction(0)), f(Fraction(1))
        if z is not None and o is not None and z.__class__ is not float and o.__class__ is not float and z != o:
            s = -Fraction(z) / (Fraction(o) - Fraction(z))
            y = f(s)
            if y == 0:
                yield s
                return
        grid = [Fraction(x) for x in (-300, -30, -5, -1, 0, 1, 5, 30, 300)]
    last = None
    for s in grid:
        y = f(s)
        if y is None:
            last = None
            continue
        if y == 0:
            yield s
        elif last is not None and (y > 0) != (last[1] > 0):
            lo, hi, up = last[0], s, y > 0
            for _ in range(44):
                if fam.kind == 'scale':
                    mid = Fraction(math.sqrt(float(lo) * float(hi)))
                else:
                    mid = (lo + hi) / 2
                y2 = f(mid)
                if y2 is None or y2 == 0 or mid in (lo, hi):
                    break
                if (y2 > 0) == up:
                    hi = mid
                else:
                    lo = mid
            yield lo
            yield hi
        if y != 0:
            last = (s, y)


def directed(facts, got, want, seed, limit=6):
    """points beside the edges of the two terms; a witness where they differ"""
    es = edges(got, want)
    if not es:
        return None
    end = time.time() + limit
    lits = list(facts.order)
    # edges nobody bound further out are the most telling ones
    es.sort(key=lambda e: isopen(e[1]) if e[0] != 'cross' else isopen(e[1][0]) or isopen(e[1][1]))
    es = es[:24]
    rng = random.Random(seed + 17)
    for base in samples(facts, (got, want), seed + 3, 200, limit=limit):
        if time.time() > end:
            return None
        try:
            base.ev(got)
            base.ev(want)
        except (Undef, Out, RecursionError):
            continue
        if any(v.__class__ in LAZY or isinstance(v, (list, tuple)) and len(v) > 40 for v in base.val.values()):
            continue
        for kind, x in es:
            if time.time() > end:
                return None
            terms = x if kind == 'cross' else (x,)
            inner = subterms(terms)
            base.bv = {v: rng.randrange(0, 3) for v in inner if v.op == 'bv'}
            fams = []
            for t in inner:
                v = base.val.get(t)
                if v is None or t in base.subs:
                    continue
                if t.k == 'r':
                    fams.append(Moved(base, 'shift', t))
                elif t.k == 'sr' and len(v):
                    fams.append(Moved(base, 'shift', t, rng.randrange(len(v))))
            if len(fams) > 3:
                fams = rng.sample(fams, 3)
            if fams:
                fams.append(Moved(base, 'scale'))
            if kind == 'cross':
                g = lambda p: p.num(p.ev(terms[0])) - p.num(p.ev(terms[1]))
            else:
                g = lambda p: p.num(p.ev(x))
            for fam in fams:
                for dl in (DELTAS[0],) + tuple(rng.sample(DELTAS[1:], 2)):
                    target = dl
                    if kind == 'step':
                        try:
                            target = dl + math.floor(g(fam.point(Fraction(1 if fam.kind == 'scale' else 0)))) + rng.randrange(0, 2)
                        except (Undef, Out, OverflowError, TypeError, RecursionError):
                            continue
                    for s in solve(fam, g, target):
                        p = fam.point(s)
                        p.bv = {}
                        try:
                            if not all(p.ev(l) for l in lits):
                                continue
                            p.steps = 0
                            y = p.ev(got)
                            w = p.ev(want)
                            if not same(y, w):
                                return Witness(p, y, w)
                        except (Undef, Out, ZeroDivisionError, OverflowError, RecursionError):
                            continue
    return None


def reachable(facts, cond, seed=1, tries=3000):
    """a point on this path at which cond holds, or None"""
    for p in samples(facts, (cond,), seed, tries, (cond,) if cond is not None else (), 6):
        return Witness(p)
    return None
