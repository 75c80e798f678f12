"""Terms of the abstract domain: hash-consed value numbers.

A value of the analysed program is abstracted by a term.  Numbers are
polynomials over atoms (exact rationals; doubles are treated as reals),
conditions are literals over polynomials, arrays are ordered summaries
(concatenations, comprehensions over an index, slices, overwrites).  The smart
constructors keep terms in a normal form, using the facts known at the current
program point (CTX) to discharge side conditions.
"""
from fractions import Fraction
import sys
sys.setrecursionlimit(20000)


class Budget(Exception):
    pass


class T:
    __slots__ = ('op', 'a', 'k', 'id', 'fs', 'lv', 'd', 'sz')

    def __repr__(self):
        return show(self)


_table = {}
_n = [0]
LIMIT = [6000000]


def _scan(x, fs, info):
    for y in x:
        if y.__class__ is T:
            fs |= y.fs
            if y.lv > info[0]:
                info[0] = y.lv
            info[1] += y.sz
        elif y.__class__ is tuple:
            _scan(y, fs, info)


def _mk(op, k, *a):
    key = (op, k, a)
    t = _table.get(key)
    if t is not None:
        return t
    t = T()
    t.op = op
    t.k = k
    t.a = a
    _n[0] += 1
    if _n[0] > LIMIT[0]:
        raise Budget('term table')
    t.id = _n[0]
    t.d = None
    fs = set()
    info = [0, 1]
    for x in a:
        if x.__class__ is T:
            fs |= x.fs
            if x.lv > info[0]:
                info[0] = x.lv
            info[1] += x.sz
        elif x.__class__ is tuple:
            _scan(x, fs, info)
    lv, sz = info
    if op == 'sym':
        fs.add(t)
    if op in BINDERS:
        lv = max(lv, a[BINDERS[op]].lv) + 1
    t.fs = frozenset(fs)
    t.lv = lv
    t.sz = sz
    _table[key] = t
    return t


# binder ops -> index of the argument that is the body (bound variable = 'bv' of
# the level of the node)
BINDERS = {'comp': 1, 'sum': 1, 'first': 1, 'ex': 1, 'fmin': 1, 'fmax': 1, 'mu': 1, 'tab': 1}

# --------------------------------------------------------------------------
# symbols

_fresh = [0]


def sym(name, k, *extra):
    """symbol; extra: for sequences the length, for ints 'nn' if non negative"""
    return _mk('sym', k, name, *extra)


def fresh(name, k, *extra):
    _fresh[0] += 1
    return _mk('sym', k, '%s#%d' % (name, _fresh[0]), *extra)


# the value that is not a number: comparisons with it and arithmetic on it are
# folded by the interpreter
NANSYM = _mk('sym', 'r', 'nan')


def has_nan(p):
    if NANSYM not in p.fs:
        return False
    for m, _ in p.d.items() if p.op == 'P' else ():
        for a, _ in m:
            if a is NANSYM:
                return True
            if a.op in ('uf', 'sqrt', 'abs', 'trunc', 'floor', 'inv', 'pow'):
                for x in a.a:
                    for y in x if x.__class__ is tuple else (x,):
                        if y.__class__ is T and y.op == 'P' and has_nan(y):
                            return True
    return False


# --------------------------------------------------------------------------
# polynomials

def _monokey(m):
    return tuple((a.id, e) for a, e in m)


def _poly(d):
    """dict mono->coef  -> term"""
    items = [(m, c) for m, c in d.items() if c != 0]
    if len(items) > 1:
        items.sort(key=lambda x: _monokey(x[0]))
    if len(items) > 3000:
        raise Budget('polynomial')
    t = _mk('P', 'n', tuple(items))
    if t.d is None:
        t.d = dict(items)
    return t


_constc = {}


def C(c):
    t = _constc.get(c)
    if t is None:
        f = Fraction(c)
        if f.denominator == 1:
            f = int(f)
        t = _poly({(): f} if f else {})
        _constc[c] = t
    return t


def norm_c(c):
    if c.__class__ is Fraction and c.denominator == 1:
        return int(c)
    return c


ZERO = C(0)
ONE = C(1)


def A(atom):
    """polynomial made of one atom"""
    return _poly({((atom, 1),): 1})


def isconst(p):
    d = p.d
    return not d or (len(d) == 1 and () in d)


def cval(p):
    return p.d.get((), 0)


def cint(p):
    """the int value of a constant polynomial or None"""
    if p.op == 'P' and isconst(p):
        v = cval(p)
        if v.__class__ is int:
            return v
    return None


_addm = {}


def padd(p, q):
    if not p.d:
        return q
    if not q.d:
        return p
    key = (p, q)
    r = _addm.get(key)
    if r is None:
        d = dict(p.d)
        for m, c in q.d.items():
            s = norm_c(d.get(m, 0) + c)
            if s:
                d[m] = s
            else:
                d.pop(m, None)
        r = _poly(d)
        _addm[key] = r
    return r


def pscale(p, c):
    if c == 1:
        return p
    if c == 0:
        return ZERO
    return _poly({m: norm_c(v * c) for m, v in p.d.items()})


def pneg(p):
    return pscale(p, -1)


def psub(p, q):
    return padd(p, pneg(q)) if q.d else p


def _monomul(m1, m2):
    """product of monomials; returns monomial or None (zero)"""
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if a.op == 'ind':
            n = 1
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    sq = [a for a, e in d.items() if a.op == 'sqrt' and (e >= 2 or e <= -2)]
    if sq:
        return ('sq', d, sq)
    return tuple(sorted(d.items(), key=lambda x: x[0].id))


_mulm = {}


def pmul(p, q):
    if not p.d or not q.d:
        return ZERO
    if isconst(p):
        return pscale(q, cval(p))
    if isconst(q):
        return pscale(p, cval(q))
    key = (p, q)
    r = _mulm.get(key)
    if r is not None:
        return r
    if len(p.d) * len(q.d) > 40000:
        raise Budget('product')
    d = {}
    extra = []
    for m1, c1 in p.d.items():
        for m2, c2 in q.d.items():
            m = _monomul(m1, m2)
            if m and m[0] == 'sq':
                # sqrt(x)^2 = x
                dd, sq = dict(m[1]), m[2]
                t = C(norm_c(c1 * c2))
                for a in sq:
                    e = dd.pop(a)
                    x = a.a[0]
                    h = int(abs(e) // 2)
                    for _ in range(h):
                        t = pmul(t, x) if e > 0 else pmul(t, pinv(x))
                    if abs(e) % 2:
                        dd[a] = 1 if e > 0 else -1
                rest = _poly({tuple(sorted(dd.items(), key=lambda x: x[0].id)): 1})
                extra.append(pmul(t, rest))
                continue
            s = norm_c(d.get(m, 0) + c1 * c2)
            if s:
                d[m] = s
            else:
                d.pop(m, None)
    r = _poly(d)
    for e in extra:
        r = padd(r, e)
    r = _cancel_inv(r)
    _mulm[key] = r
    return r


def _cancel_inv(p):
    return p


def ppow(p, n):
    r = ONE
    for _ in range(n):
        r = pmul(r, p)
    return r


def pinv(q):
    """1/q"""
    if isconst(q):
        c = cval(q)
        if c == 0:
            return A(_mk('inv', 'r', q))
        return C(Fraction(1) / c)
    if len(q.d) == 1:
        (m, c), = q.d.items()
        if not any(a.op == 'ind' for a, e in m):
            r = {tuple((a, -e) for a, e in m): norm_c(Fraction(1) / c)}
            return _poly(r)
    # monic content
    items = q.a[0]
    lead = items[-1][1] if items[0][0] == () else items[0][1]
    lead = items[0][1] if items[0][0] != () else items[1][1]
    mon = pscale(q, Fraction(1) / lead)
    # common monomial factor
    common = None
    for m in mon.d:
        dm = dict(m)
        if common is None:
            common = dict((a, e) for a, e in dm.items() if a.op != 'ind')
        else:
            # the power closest to zero, where all have the same sign
            common = {a: min(e, dm[a]) if e > 0 else max(e, dm[a]) for a, e in common.items() if a in dm and dm[a] * e > 0}
        if not common:
            break
    r = C(Fraction(1) / lead)
    if common:
        f = _poly({tuple(sorted(((a, -e) for a, e in common.items()), key=lambda x: x[0].id)): 1})
        mon = pmul(mon, f)
        r = pmul(r, f)
        return pmul(r, pinv(mon))
    return pscale(A(_mk('inv', 'r', mon)), norm_c(Fraction(1) / lead))


def pdiv(p, q):
    """exact real division"""
    if p is q and not isconst(p):
        return ONE
    return pmul(p, pinv(q))


def isint_atom(a):
    return a.k == 'i'


def isint(p):
    for m, c in p.d.items():
        if c.__class__ is not int:
            return False
        for a, e in m:
            if a.k != 'i' or e < 0:
                return False
    return True


def atoms_of(p):
    s = set()
    for m in p.d:
        for a, e in m:
            s.add(a)
    return s


def psubst_atom(p, atom, q):
    """replace the atom (as a polynomial variable, not inside atoms) by q"""
    r = ZERO
    for m, c in p.d.items():
        e = 0
        rest = []
        for a, x in m:
            if a is atom:
                e = x
            else:
                rest.append((a, x))
        t = _poly({tuple(rest): c})
        if e > 0:
            t = pmul(t, ppow(q, e))
        elif e < 0:
            t = pmul(t, ppow(pinv(q), -e))
        r = padd(r, t)
    return r


def polydiv(p, q):
    """p = s*q + r  with s, r polynomials, dividing the monomials of p that
    contain the leading monomial of q (q: single monomial or with one)"""
    if isconst(q):
        c = cval(q)
        if c == 0:
            return None
        s = {}
        r = {}
        for m, v in p.d.items():
            if v.__class__ is int and c.__class__ is int:
                if v % c == 0:
                    s[m] = v // c
                elif m == ():
                    s[m] = v // c
                    r[m] = v % c
                else:
                    r[m] = v
            else:
                s[m] = norm_c(Fraction(v) / c)
        return _poly(s), _poly(r)
    if len(q.d) == 1:
        (qm, qc), = q.d.items()
        s = {}
        r = {}
        qd = dict(qm)
        for m, v in p.d.items():
            dm = dict(m)
            if all(dm.get(a, 0) >= e for a, e in qd.items()) and (
                    v.__class__ is not int or qc.__class__ is not int or v % qc == 0):
                for a, e in qd.items():
                    if dm[a] == e or a.op == 'ind':
                        del dm[a]
                    else:
                        dm[a] -= e
                s[tuple(sorted(dm.items(), key=lambda x: x[0].id))] = norm_c(Fraction(v) / qc)
            else:
                r[m] = v
        return _poly(s), _poly(r)
    # general: try exact division by repeated leading term elimination
    items = [m for m in q.d if m != ()]
    qm = max(items, key=lambda m: (sum(e for a, e in m), _monokey(m)))
    qc = q.d[qm]
    qd = dict(qm)
    s = ZERO
    r = p
    for _ in range(30):
        hit = None
        for m, v in r.d.items():
            dm = dict(m)
            if all(dm.get(a, 0) >= e for a, e in qd.items()):
                if hit is None or (sum(e for a, e in m), _monokey(m)) > (sum(e for a, e in hit), _monokey(hit)):
                    hit = m
        if hit is None:
            break
        dm = dict(hit)
        for a, e in qd.items():
            if dm[a] == e or a.op == 'ind':
                del dm[a]
            else:
                dm[a] -= e
        t = _poly({tuple(sorted(dm.items(), key=lambda x: x[0].id)): norm_c(Fraction(r.d[hit]) / qc)})
        s = padd(s, t)
        r = psub(r, pmul(t, q))
    return s, r


# --------------------------------------------------------------------------
# booleans

TRUE = _mk('true', 'b')
FALSE = _mk('false', 'b')


def B(v):
    return TRUE if v else FALSE


def _normsign(p):
    """scale to integer content 1 with positive leading (non constant)
    coefficient.  returns (poly, sign)"""
    items = [(m, c) for m, c in p.a[0] if m != ()]
    if not items:
        return p, 1
    from math import gcd
    den = 1
    for m, c in p.a[0]:
        if c.__class__ is Fraction:
            den = den * c.denominator // gcd(den, c.denominator)
    g = 0
    for m, c in items:
        g = gcd(g, int(c * den))
    sign = 1 if items[0][1] > 0 else -1
    f = Fraction(den, g) * sign
    return pscale(p, norm_c(f)), sign


def _lift1(p):
    """an indicator condition in polynomial p, or None"""
    for m in p.d:
        for a, e in m:
            if a.op == 'ind':
                return a
    return None


def _strip(p, nonzero):
    """divide out factors common to every monomial that are known to be
    positive (or, for equations, different from zero)"""
    if G.facts is None or not p.d or () in p.d:
        return p
    ms = list(p.d)
    common = None
    for m in ms:
        s = {a for a, e in m if e > 0}
        common = s if common is None else common & s
        if not common:
            return p
    if len(ms) == 1 and len(ms[0]) == 1 and ms[0][0][1] == 1:
        return p
    for a in sorted(common, key=lambda t: t.id):
        if a.op == 'ind':
            continue
        if len(p.d) == 1:
            (m, _), = p.d.items()
            if len(m) == 1:
                if nonzero and m[0][1] > 1:
                    p = A(a)
                continue
        x = A(a)
        ok = prove(gt0(x))
        if not ok and nonzero:
            ok = decide(eq0(x)) is False
        if ok:
            p = pmul(p, _poly({((a, -1),): 1})) if False else _divmono(p, a)
    return p


def _divmono(p, a):
    d = {}
    for m, cf in p.d.items():
        out = []
        for b, e in m:
            if b is a:
                e -= 1
            if e:
                out.append((b, e))
        d[tuple(out)] = cf
    return _poly(d)


def ge0(p):
    """p >= 0"""
    if isconst(p):
        return B(cval(p) >= 0)
    r = _boollift(p, ge0)
    if r is not None:
        return r
    q = _strip(p, False)
    if q is not p:
        return ge0(q)
    if isint(p):
        q, s = _normsign(p)
        # sign*q*... : p = k*s*q' with rounding of the constant
        c = q.d.get((), 0)
        if c.__class__ is not int:
            import math
            d = dict(q.d)
            # s>0: q+c>=0 <=> floor(c) ; s<0: -(q+c)>=0 <=> q+c<=0 <=> q+ceil(c)<=0
            d[()] = math.floor(c) if s > 0 else math.ceil(c)
            q = _poly(d)
        if s > 0:
            return _mk('ge0', 'b', q)
        # -q >= 0  <=> not (q >= 1) <=> not (q-1>=0)
        return not_(_mk('ge0', 'b', padd(q, C(-1))))
    q, s = _normsign(p)
    if s > 0:
        return _mk('ge0', 'b', q)
    return not_(_mk('gt0', 'b', q))


def gt0(p):
    if isconst(p):
        return B(cval(p) > 0)
    if isint(p):
        return ge0(padd(p, C(-1)))
    r = _boollift(p, gt0)
    if r is not None:
        return r
    q = _strip(p, False)
    if q is not p:
        return gt0(q)
    q, s = _normsign(p)
    if s > 0:
        return _mk('gt0', 'b', q)
    return not_(_mk('ge0', 'b', q))


def eq0(p):
    if isconst(p):
        return B(cval(p) == 0)
    r = _boollift(p, eq0)
    if r is not None:
        return r
    q = _strip(p, True)
    if q is not p:
        return eq0(q)
    q, s = _normsign(p)
    if isint(p):
        c = q.d.get((), 0)
        if c.__class__ is not int:
            return FALSE
    if len(q.d) == 2:
        (m1, c1), (m2, c2) = q.d.items()
        if c1 + c2 == 0 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1] == 1:
            x, y = m1[0][0], m2[0][0]
            if x.op == y.op == 'uf' and x.a[0] == y.a[0] == 'bits':
                return eq0(psub(x.a[1][0], y.a[1][0]))
    return _mk('eq0', 'b', q)


def _boollift(p, f):
    inds = []
    for m in p.d:
        for a, e in m:
            if a.op == 'ind' and a not in inds:
                inds.append(a)
    if not inds or len(inds) > 3:
        return None
    a = inds[0]
    c = a.a[0]
    with assuming(c) as ok1:
        p1 = f(simp_top(psubst_atom(p, a, ONE))) if ok1 else None
    with assuming(not_(c)) as ok0:
        p0 = f(simp_top(psubst_atom(p, a, ZERO))) if ok0 else None
    if p1 is None:
        return p0 if p0 is not None else FALSE
    if p0 is None:
        return p1
    return ite(c, p1, p0)


def lt(a, b):
    return gt0(psub(b, a))


def le(a, b):
    return ge0(psub(b, a))


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'P' and b.op == 'P':
        return eq0(psub(a, b))
    return eqt(a, b)


def not_(b):
    if b is TRUE:
        return FALSE
    if b is FALSE:
        return TRUE
    if b.op == 'not':
        return b.a[0]
    return _mk('not', 'b', b)


def _flat(op, xs):
    out = []
    seen = set()
    for x in xs:
        ys = x.a[0] if x.op == op else (x,)
        for y in ys:
            if y not in seen:
                seen.add(y)
                out.append(y)
    return out, seen


def and_(*xs):
    out, seen = _flat('and', xs)
    out = [x for x in out if x is not TRUE]
    if FALSE in seen:
        return FALSE
    for x in out:
        if not_(x) in seen:
            return FALSE
    # unit propagation into disjunctions
    lits = set(x for x in out if x.op != 'or')
    chg = False
    res = []
    for x in out:
        if x.op == 'or':
            ys = x.a[0]
            if any(y in lits for y in ys):
                chg = True
                continue
            zs = [y for y in ys if not_(y) not in lits]
            if len(zs) != len(ys):
                chg = True
                x = or_(*zs)
        res.append(x)
    if chg:
        return and_(*res)
    out = _bounds_and(res)
    if out is FALSE:
        return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    out.sort(key=lambda t: t.id)
    return _mk('and', 'b', tuple(out))


def _bounds_and(xs):
    """drop ge0(p+c) when ge0(p+c') with c'<=c is there; detect simple
    contradictions ge0(p+c) and not ge0(p+d), d>=c"""
    lo = {}
    hi = {}
    res = []
    for x in xs:
        y, pos = (x.a[0], False) if x.op == 'not' else (x, True)
        if y.op == 'ge0' and isint(y.a[0]):
            p = y.a[0]
            c = p.d.get((), 0)
            base = psub(p, C(c))
            if pos:
                if base in lo:
                    lo[base] = min(lo[base], c)
                else:
                    lo[base] = c
            else:
                # not(base+c>=0): base <= -c-1
                if base in hi:
                    hi[base] = max(hi[base], c)
                else:
                    hi[base] = c
        else:
            res.append(x)
    if not lo and not hi:
        return res
    for b, c in lo.items():
        if b in hi and hi[b] >= c:
            return FALSE
        res.append(ge0(padd(b, C(c))))
    for b, c in hi.items():
        res.append(not_(ge0(padd(b, C(c)))))
    return res


def or_(*xs):
    return not_(and_(*[not_(x) for x in xs])) if False else _or(xs)


def _or(xs):
    out, seen = _flat('or', xs)
    out = [x for x in out if x is not FALSE]
    if TRUE in seen:
        return TRUE
    for x in out:
        if not_(x) in seen:
            return TRUE
    lits = set(x for x in out if x.op != 'and')
    chg = False
    res = []
    for x in out:
        if x.op == 'and':
            ys = x.a[0]
            if any(y in lits for y in ys):
                chg = True
                continue
            zs = [y for y in ys if not_(y) not in lits]
            if len(zs) != len(ys):
                chg = True
                x = and_(*zs)
        res.append(x)
    if chg:
        return _or(res)
    if len(res) > 1:
        neg = _bounds_and([not_(x) for x in res])
        if neg is FALSE:
            return TRUE
        res = [not_(x) for x in neg]
    if not res:
        return FALSE
    if len(res) == 1:
        return res[0]
    res.sort(key=lambda t: t.id)
    return _mk('or', 'b', tuple(res))


def implies(a, b):
    return or_(not_(a), b)


def ind(c):
    """1 if c else 0, as a polynomial"""
    if c is TRUE:
        return ONE
    if c is FALSE:
        return ZERO
    if c.op == 'not':
        return psub(ONE, ind(c.a[0]))
    if c.op == 'and':
        r = ONE
        for x in c.a[0]:
            r = pmul(r, ind(x))
        return r
    if c.op == 'or':
        r = ONE
        for x in c.a[0]:
            r = pmul(r, psub(ONE, ind(x)))
        return psub(ONE, r)
    if c.op == 'iteb':
        i = ind(c.a[0])
        return padd(pmul(i, ind(c.a[1])), pmul(psub(ONE, i), ind(c.a[2])))
    return A(_mk('ind', 'i', c))


# --------------------------------------------------------------------------
# context of facts

class _Ctx:
    facts = None


G = _Ctx()


def decide(b):
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    f = G.facts
    if f is None:
        return None
    return f.decide(b)


def prove(b):
    return decide(b) is True


class assuming:
    """with assuming(c) as consistent: ... runs under the facts + c"""

    def __init__(self, c):
        self.c = c

    def __enter__(self):
        self.old = G.facts
        if G.facts is None:
            return self.c is not FALSE
        G.facts = G.facts.assume(self.c)
        return not G.facts.bad

    def __exit__(self, *x):
        G.facts = self.old
        return False


def simp_top(p):
    return p


# --------------------------------------------------------------------------
# generic ite

def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == 'not':
        return ite(c.a[0], b, a)
    d = decide(c)
    if d is True:
        return a
    if d is False:
        return b
    return _ite(c, a, b)


def poison(why=''):
    return _mk('top', 'o', why)


def _itenum(c, a, b):
    """comparison of the two values themselves; equal at the boundary"""
    p = c.a[0]
    d = psub(a, b)
    if not d.d:
        return a
    if c.op == 'eq0':
        f = G.facts
        if f is not None and len(p.d) <= 3:
            with assuming(c) as ok:
                if ok and G.facts.sub and G.facts.norm(a) is G.facts.norm(b):
                    return b
        return None
    ratio = None
    if len(d.d) <= len(p.d) + 1 and len(p.d) <= len(d.d) + 1:
        m0 = next((m for m in p.d if m != ()), None)
        if m0 is not None and m0 in d.d:
            ratio = Fraction(d.d[m0]) / Fraction(p.d[m0])
    if ratio is None:
        return None
    rest = psub(d, pscale(p, norm_c(ratio)))
    if not isconst(rest):
        return None
    off = cval(rest)
    if isint(p) and isint(d):
        # at the boundary either choice gives the same
        if off != 0 and off != ratio:
            return None
        if psub(a, pneg(b)).d == {}:
            return abs_(a) if ratio > 0 else pneg(abs_(a))
        return None
    if off != 0:
        return None
    if not psub(a, pneg(b)).d:
        return abs_(a) if ratio > 0 else pneg(abs_(a))
    return max_(a, b) if ratio > 0 else min_(a, b)


def _ite(c, a, b):
    if a.op == 'P' and b.op == 'P':
        if c.op in ('ge0', 'gt0', 'eq0'):
            r = _itenum(c, a, b)
            if r is not None:
                return r
        i = ind(c)
        return padd(b, pmul(i, psub(a, b)))
    if a.k == 'b' and b.k == 'b':
        if a is TRUE:
            return or_(c, b)
        if a is FALSE:
            return and_(not_(c), b)
        if b is TRUE:
            return or_(not_(c), a)
        if b is FALSE:
            return and_(c, a)
        if c.op in ('and', 'or'):
            return or_(and_(c, a), and_(not_(c), b))
        return _mk('iteb', 'b', c, a, b)
    if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        fa = a.a[1]
        fb = b.a[1]
        if all(x[0] == y[0] for x, y in zip(fa, fb)):
            return _mk('rec', 'o', a.a[0], tuple((x[0], ite(c, x[1], y[1])) for x, y in zip(fa, fb)))
    if a.k[0] == 's' and b.k[0] == 's':
        return _seqite(c, a, b)
    if a.op == 'top' or b.op == 'top':
        pass
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    # ite(c, ite(d,x,y), y) = ite(c&d, x, y) is left alone (kept structural)
    return _mk('ite', a.k if a.op != 'top' else b.k, c, a, b)


def _parts(s):
    return list(s.a[0]) if s.op == 'cat' else ([] if isempty(s) else [s])


def isempty(s):
    return s.op == 'elems' and not s.a[0]


def _split_elem_parts(s):
    """parts with elems split into single elements"""
    out = []
    for p in _parts(s):
        if p.op == 'elems' and len(p.a[0]) <= 64:
            for e in p.a[0]:
                out.append(_mk('elems', p.k, (e,)))
        else:
            out.append(p)
    return out


def _seqite(c, a, b):
    k = a.k
    if isempty(a):
        k = b.k
    # same-length explicit arrays: element wise
    if a.op == 'elems' and b.op == 'elems' and len(a.a[0]) == len(b.a[0]):
        return elems(k, [ite(c, x, y) for x, y in zip(a.a[0], b.a[0])])
    # overwrites of one base
    if a.op == 'upd' and a.a[0] is b:
        return upd(b, a.a[1], ite(c, a.a[2], empty(k)))
    if b.op == 'upd' and b.a[0] is a:
        return upd(a, b.a[1], ite(c, empty(k), b.a[2]))
    if a.op == 'upd' and b.op == 'upd' and a.a[0] is b.a[0] and a.a[1] is b.a[1]:
        la, lb = len_(a.a[2]), len_(b.a[2])
        return upd(a.a[0], a.a[1], ite(c, a.a[2], b.a[2]))
    pa = _split_elem_parts(a)
    pb = _split_elem_parts(b)
    i = 0
    while i < len(pa) and i < len(pb) and pa[i] is pb[i]:
        i += 1
    j = 0
    while j < len(pa) - i and j < len(pb) - i and pa[-1 - j] is pb[-1 - j]:
        j += 1
    if c.op == 'eq0' and G.facts is not None and len(c.a[0].d) <= 3:
        with assuming(c) as ok:
            if ok and G.facts.sub and G.facts.norm(a) is G.facts.norm(b):
                return b
    if i or j:
        pre = pa[:i]
        post = pa[len(pa) - j:] if j else []
        ma = cat(k, *pa[i:len(pa) - j])
        mb = cat(k, *pb[i:len(pb) - j])
        return cat(k, *(pre + [ite(c, ma, mb)] + post))
    # base updated by a filter of slices: ite(c, X, base) left structural
    if a.op == 'ite' and a.a[0] is c:
        a = a.a[1]
    if b.op == 'ite' and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    # comprehensions over the same range merge
    if a.op == 'comp' and b.op == 'comp' and a.a[0] is b.a[0] and c.lv == 0:
        x = fresh('x', 'i', 'nn')
        return comp(a.a[0], x, ite(c, open_(a, x), open_(b, x)))
    return _mk('ite', k, c, a, b)


# --------------------------------------------------------------------------
# binders

def _close(x, body):
    return subst(body, {x: None}, bvlevel=True)


def bv(lv, k):
    return _mk('bv', k, lv)


def _bindlevel(*ts):
    return 1 + max(t.lv for t in ts)


def close(x, body):
    """replace symbol x by the bound variable of the right level"""
    lv = 1 + body.lv
    v = bv(lv, 'i')
    return _replace(body, {x: v})


def _replace(t, m):
    """structural replacement of symbols without re-normalisation (used for
    opening and closing binders only)"""
    memo = {}
    keys = frozenset(m)

    def go(t):
        if t.op == 'sym' and t in m:
            return m[t]
        if not (t.fs & keys):
            return t
        r = memo.get(t)
        if r is None:
            r = _rebuild_raw(t, go)
            memo[t] = r
        return r
    return go(t)


def _map_arg(x, go):
    if x.__class__ is T:
        return go(x)
    if x.__class__ is tuple:
        return tuple(_map_arg(y, go) for y in x)
    return x


def _rebuild_raw(t, go):
    if t.op == 'P':
        d = {}
        for m, c in t.a[0]:
            m2 = {}
            for a, e in m:
                b = go(a)
                m2[b] = m2.get(b, 0) + e
            key = tuple(sorted(((a, e) for a, e in m2.items() if e), key=lambda x: x[0].id))
            d[key] = norm_c(d.get(key, 0) + c)
        return _poly(d)
    return _mk(t.op, t.k, *[_map_arg(x, go) for x in t.a])


def open_(t, x, idx=None):
    """body of binder t with its bound variable replaced by symbol x"""
    body = t.a[BINDERS[t.op]]
    lv = t.lv
    # bound variable level: 1 + body level
    v = bv(1 + body.lv, 'i')
    return _replace_bv(body, v, x)


_hasbv = {}


def has_bv(t, v):
    key = (t, v)
    r = _hasbv.get(key)
    if r is not None:
        return r
    if t is v:
        r = True
    else:
        r = False
        for x in t.a:
            if _arg_has(x, v):
                r = True
                break
    _hasbv[key] = r
    return r


def _arg_has(x, v):
    if x.__class__ is T:
        return has_bv(x, v)
    if x.__class__ is tuple:
        return any(_arg_has(y, v) for y in x)
    return False


def _replace_bv(body, v, x):
    memo = {}

    def go(t):
        if t is v:
            return x
        if not has_bv(t, v):
            return t
        r = memo.get(t)
        if r is None:
            r = _rebuild_raw(t, go)
            memo[t] = r
        return r
    return go(body)


# --------------------------------------------------------------------------
# substitution with re-normalisation

def subst(t, m, memo=None):
    """replace terms (symbols or atoms) according to m, renormalising.  For
    numeric atoms the replacement is a polynomial."""
    if not m:
        return t
    return Rewriter(m).go(t)


class Rewriter:
    def __init__(self, m, force=False):
        self.m = m
        self.memo = {}
        self.force = force
        self.symonly = all(k.op == 'sym' for k in m) and not force
        self.keys = frozenset(m)

    def go(self, t):
        r = self.m.get(t)
        if r is not None:
            return r
        if self.symonly and not (t.fs & self.keys):
            return t
        r = self.memo.get(t)
        if r is None:
            r = self.rebuild(t)
            self.memo[t] = r
        return r

    def atom(self, a):
        """atom -> polynomial"""
        r = self.m.get(a)
        if r is not None:
            return r
        if self.symonly and not (a.fs & self.keys):
            return A(a)
        r = self.memo.get(a)
        if r is None:
            r = self.rebuild(a)
            if r.op != 'P':
                r = A(r)
            self.memo[a] = r
        elif r.op != 'P':
            r = A(r)
        return r

    def rebuild(self, t):
        op = t.op
        if op == 'P':
            r = ZERO
            for m, c in t.a[0]:
                x = C(c)
                inds = [a for a, e in m if a.op == 'ind']
                dead = False
                for a, e in m:
                    p = self.atom(a)
                    if e > 0:
                        x = pmul(x, ppow(p, e))
                    else:
                        x = pmul(x, ppow(pinv(p), -e))
                    if not x.d:
                        break
                r = padd(r, x)
            return r
        if op in BINDERS:
            return self.binder(t)
        f = REBUILD.get(op)
        if f is None:
            return _rebuild_raw(t, self.go)
        return f(t, self)

    def binder(self, t):
        x = fresh('x', 'i', 'nn')
        b = open_(t, x)
        op = t.op
        if op == 'mu':
            n, body, init, pick = t.a
            return _mk('mu', t.k, self.go(n), close(x, _rebuild_raw_tuple(b, self)), self.go(init), pick)
        n = self.go(t.a[0])
        old = G.facts
        if G.facts is not None:
            G.facts = G.facts.assume(and_(ge0(A(x)), lt(A(x), n)))
        try:
            rw = self if G.facts is old else Rewriter(self.m, self.force)
            b2 = rw.go(b)
        finally:
            G.facts = old
        return BUILD[op](n, x, b2) if op not in ('comp', 'tab') else (
            comp(n, x, b2) if op == 'comp' else tab(n, x, b2))


def _rebuild_raw_tuple(b, rw):
    return rw.go(b)


# --------------------------------------------------------------------------
# numbers: non polynomial operations

def _argind(*ps):
    """first indicator among the numeric arguments (limited lifting)"""
    inds = []
    for p in ps:
        for m in p.d:
            for a, e in m:
                if a.op == 'ind' and a not in inds:
                    inds.append(a)
    if not inds or len(inds) > 4:
        return None
    return inds[0]


def lifted(f, *ps):
    """apply numeric function f to polynomials, pushing case distinctions
    (indicators) outwards"""
    a = _argind(*ps)
    if a is None:
        return None
    c = a.a[0]
    d = decide(c)
    r1 = r0 = None
    if d is not False:
        with assuming(c) as ok:
            if ok:
                r1 = f(*[psubst_atom(p, a, ONE) for p in ps])
    if d is not True:
        with assuming(not_(c)) as ok:
            if ok:
                r0 = f(*[psubst_atom(p, a, ZERO) for p in ps])
    if r1 is None:
        return r0
    if r0 is None:
        return r1
    return ite(c, r1, r0)


def idiv(a, b):
    """integer division of values known (or assumed) non negative; exact when
    polynomial division leaves a remainder in range"""
    if isconst(b):
        c = cval(b)
        if c == 1:
            return a
        if c == 0:
            return A(_mk('idiv', 'i', a, b))
    if not a.d:
        return ZERO
    r = lifted(idiv, a, b)
    if r is not None:
        return r
    if isconst(a) and isconst(b):
        x, y = cval(a), cval(b)
        q = abs(x) // abs(y)
        return C(q if (x >= 0) == (y >= 0) else -q)
    sr = polydiv(a, b)
    if sr is not None:
        s, r = sr
        if not r.d:
            return s
        if isint(s) and s.d:
            if prove(ge0(r)) and prove(ge0(s)):
                if prove(lt(r, b)):
                    return s
                return padd(s, idiv(r, b))
        elif not s.d and prove(ge0(a)) and prove(lt(a, b)):
            return ZERO
    return A(_mk('idiv', 'i', a, b))


def imod(a, b):
    if isconst(b):
        c = cval(b)
        if c == 1:
            return ZERO
        if c == 0:
            return A(_mk('mod', 'i', a, b))
    if not a.d:
        return ZERO
    r = lifted(imod, a, b)
    if r is not None:
        return r
    if isconst(a) and isconst(b):
        x, y = cval(a), cval(b)
        m = abs(x) % abs(y)
        return C(m if x >= 0 else -m)
    sr = polydiv(a, b)
    if sr is not None:
        s, r = sr
        if not r.d:
            return ZERO
        if isint(s) and prove(ge0(r)) and prove(ge0(s)):
            if prove(lt(r, b)):
                return r
            if s.d:
                return imod(r, b)
    return A(_mk('mod', 'i', a, b))


def sqrt_(p):
    r = lifted(sqrt_, p)
    if r is not None:
        return r
    if isconst(p):
        c = Fraction(cval(p))
        from math import isqrt
        if c >= 0:
            n, d = isqrt(c.numerator), isqrt(c.denominator)
            if n * n == c.numerator and d * d == c.denominator:
                return C(Fraction(n, d))
    if len(p.d) == 1:
        (m, c), = p.d.items()
        if c == 1 and all(e % 2 == 0 for a, e in m):
            return abs_(_poly({tuple((a, e // 2) for a, e in m): 1}))
    return A(_mk('sqrt', 'r', p))


def abs_(p):
    if isconst(p):
        return C(abs(cval(p)))
    r = lifted(abs_, p)
    if r is not None:
        return r
    d = decide(ge0(p))
    if d is True:
        return p
    if d is False:
        return pneg(p)
    q, s = _normsign(p)
    f = None
    # |c*q| = |c|*|q|
    (m0, c0) = next((m, c) for m, c in p.a[0] if m != ())
    c1 = q.d[m0]
    sc = abs(Fraction(c0) / c1)
    if len(q.d) == 1:
        # |x*y| = |x|*|y|
        (m, c), = q.d.items()
        if len(m) > 1 or m[0][1] != 1:
            r = C(norm_c(sc * abs(c)))
            for a, e in m:
                x = A(a)
                if e % 2 == 0:
                    t = _poly({((a, e),): 1})
                else:
                    ab = abs_(x)
                    t = ppow(ab, e) if e > 0 else ppow(pinv(ab), -e)
                r = pmul(r, t)
            return r
    isi = 'i' if isint(q) else 'r'
    return pscale(A(_mk('abs', isi, q)), norm_c(sc))


INF = _mk('sym', 'r', 'INF')


def _minmax(which, xs):
    """real min/max as commutative idempotent atoms, int ones by cases"""
    out = []
    for x in xs:
        if len(x.d) == 1:
            (m, c), = x.d.items()
            if len(m) == 1 and m[0][1] == 1 and c == 1 and m[0][0].op == which:
                out.extend(m[0][0].a[0])
                continue
        out.append(x)
    xs = []
    inf = A(INF) if which == 'min' else pneg(A(INF))
    for x in out:
        if x not in xs and x is not inf:
            xs.append(x)
    if not xs:
        return inf
    if len(xs) == 1:
        return xs[0]
    if all(isint(x) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = ite(ge0(psub(r, x)), x, r) if which == 'min' else ite(ge0(psub(r, x)), r, x)
        return r
    if len(xs) <= 4:
        f = lambda *ys: _minmax(which, list(ys))
        r = lifted(f, *xs)
        if r is not None:
            return r
    if len(xs) == 2 and not padd(xs[0], xs[1]).d:
        r = abs_(xs[0])
        return r if which == 'max' else pneg(r)
    # drop dominated
    keep = []
    for i, x in enumerate(xs):
        dom = False
        for j, y in enumerate(xs):
            if i == j:
                continue
            dlt = psub(x, y) if which == 'min' else psub(y, x)
            if prove(ge0(dlt)) and not (j > i and prove(ge0(pneg(dlt)))):
                dom = True
                break
        if not dom:
            keep.append(x)
    xs = keep or xs[:1]
    if len(xs) == 1:
        return xs[0]
    # absorb f(0) or f(N) into a fold
    bo = 'f' + which
    for x in xs:
        if len(x.d) != 1:
            continue
        (m, c), = x.d.items()
        if len(m) != 1 or m[0][0].op != bo or c != 1 or m[0][1] != 1:
            continue
        fo = m[0][0]
        n = fo.a[0]
        for y in xs:
            if y is x:
                continue
            if prove(ge0(padd(n, C(-1)))) and bodyat(fo, ZERO) is y:
                return _minmax(which, [z for z in xs if z is not y])
            if prove(ge0(n)) and bodyat(fo, n) is y:
                v = fresh('x', 'i', 'nn')
                return _minmax(which, [z for z in xs if z is not y and z is not x] + [BUILD[bo](padd(n, ONE), v, open_num(fo, v))])
            if prove(ge0(n)) and bodyat(fo, C(-1)) is y:
                v = fresh('x', 'i', 'nn')
                b = subst(open_num(fo, v), {v: psub(A(v), ONE)})
                return _minmax(which, [z for z in xs if z is not y and z is not x] + [BUILD[bo](padd(n, ONE), v, b)])
    xs.sort(key=lambda t: t.id)
    return A(_mk(which, 'r', tuple(xs)))


def open_num(t, x):
    return open_(t, x)


def bodyat(t, p):
    x = fresh('x', 'i', 'nn')
    return subst(open_(t, x), {x: p})


def min_(*xs):
    return _minmax('min', list(xs))


def max_(*xs):
    return _minmax('max', list(xs))


def trunc_(p):
    if isint(p):
        return p
    r = lifted(trunc_, p)
    if r is not None:
        return r
    if isconst(p):
        c = Fraction(cval(p))
        q = abs(c.numerator) // c.denominator
        return C(q if c >= 0 else -q)
    if prove(ge0(p)):
        return floor_(p)
    return A(_mk('trunc', 'i', p))


def floor_(p):
    if isint(p):
        return p
    r = lifted(floor_, p)
    if r is not None:
        return r
    if isconst(p):
        c = Fraction(cval(p))
        return C(c.numerator // c.denominator)
    # integer part of the constant moves out
    return A(_mk('floor', 'i', p))


UFNUM = {}


def uf(name, k, *args):
    """uninterpreted function application; numbers are returned as polynomials"""
    t = _mk('uf', k, name, tuple(args))
    return A(t) if k in ('i', 'r') else t


# --------------------------------------------------------------------------
# sequences

def empty(k):
    return _mk('elems', k, ())


def elems(k, xs):
    return _mk('elems', k, tuple(xs))


def len_(s):
    op = s.op
    if op == 'elems':
        return C(len(s.a[0]))
    if op == 'sym':
        return s.a[1]
    if op == 'cat':
        r = ZERO
        for p in s.a[0]:
            r = padd(r, len_(p))
        return r
    if op == 'slice':
        return s.a[2]
    if op == 'comp':
        n = s.a[0]
        x = fresh('x', 'i', 'nn')
        b = open_(s, x)
        old = G.facts
        if G.facts is not None:
            G.facts = G.facts.assume(and_(ge0(A(x)), lt(A(x), n)))
        try:
            l = len_(b)
        finally:
            G.facts = old
        return sum_(n, x, l)
    if op == 'ite':
        return ite(s.a[0], len_(s.a[1]), len_(s.a[2]))
    if op == 'upd':
        return len_(s.a[0])
    if op == 'tab':
        return s.a[0]
    if op == 'uf' and s.a[0] in ('sort', 'reverse', 'shuffled'):
        return len_(s.a[1][0])
    if op == 'top':
        return A(_mk('top', 'i', s.a[0]))
    return A(_mk('len', 'i', s))


def elemkind(k):
    return k[1:] if k[0] == 's' and len(k) > 1 else 'o'


def wrapnum(t):
    return A(t) if t.k in ('i', 'r') and t.op != 'P' else t


_atm = {}


def at(s, i):
    op = s.op
    if op == 'elems':
        xs = s.a[0]
        c = cint(i)
        if c is not None:
            if 0 <= c < len(xs):
                return xs[c]
            return _oob(s.k)
        if len(xs) == 1:
            return xs[0]
        if len(xs) == 0:
            return _oob(s.k)
        r = lifted(lambda p: at(s, p), i) if xs[0].op == 'P' else None
        if r is not None:
            return r
        if len(xs) <= 32:
            r = xs[-1]
            for j in range(len(xs) - 2, -1, -1):
                r = ite(eq0(psub(i, C(j))), xs[j], r)
            return r
        return wrapnum(_mk('at', elemkind(s.k), s, i))
    if op == 'ite':
        c = s.a[0]
        d = decide(c)
        if d is True:
            return at(s.a[1], i)
        if d is False:
            return at(s.a[2], i)
        with assuming(c):
            x = at(s.a[1], i)
        with assuming(not_(c)):
            y = at(s.a[2], i)
        return ite(c, x, y)
    a = _argind(i)
    if a is not None:
        r = lifted2(lambda p: at(s, p), i)
        if r is not None:
            return r
    if op == 'cat':
        off = ZERO
        parts = s.a[0]
        for n, p in enumerate(parts):
            j = psub(i, off)
            l = len_(p)
            if n == len(parts) - 1:
                return at(p, j)
            d = decide(lt(j, l))
            if d is True:
                return at(p, j)
            if d is None:
                rest = cat(s.k, *parts[n + 1:])
                c = lt(j, l)
                with assuming(c):
                    x = at(p, j)
                with assuming(not_(c)):
                    y = at(rest, psub(j, l))
                return ite(c, x, y)
            off = padd(off, l)
    if op == 'slice':
        return at(s.a[0], padd(s.a[1], i))
    if op == 'tab':
        return bodyat(s, i)
    if op == 'comp':
        L = rowlen(s)
        if L is not None:
            c = cint(L)
            if c == 1:
                return at(bodyat(s, i), ZERO)
            q = idiv(i, L)
            r = imod(i, L)
            return at(bodyat(s, q), r)
        return wrapnum(_mk('at', elemkind(s.k), s, i))
    if op == 'upd':
        base, pos, w = s.a
        c1 = lt(i, pos)
        d1 = decide(c1)
        if d1 is True:
            return at(base, i)
        l = len_(w)
        c2 = lt(i, padd(pos, l))
        d2 = decide(c2)
        if d1 is False:
            if d2 is True:
                return at(w, psub(i, pos))
            if d2 is False:
                return at(base, i)
            with assuming(c2):
                x = at(w, psub(i, pos))
            return ite(c2, x, at(base, i))
        if d2 is False:
            return at(base, i)
        c = eq0(psub(i, pos)) if cint(l) == 1 else and_(not_(c1), c2)
        with assuming(c) as ok:
            if ok:
                x = at(w, psub(i, pos) if cint(l) != 1 else ZERO)
            else:
                return at(base, i)
        return ite(c, x, at(base, i))
    if op == 'uf' and s.a[0] == 'reverse':
        b = s.a[1][0]
        return at(b, psub(padd(len_(b), C(-1)), i))
    if op == 'top':
        return poison(s.a[0])
    return wrapnum(_mk('at', elemkind(s.k), s, i))


def lifted2(f, p):
    """like lifted but the function returns any term"""
    a = _argind(p)
    c = a.a[0]
    d = decide(c)
    r1 = r0 = None
    if d is not False:
        with assuming(c) as ok:
            if ok:
                r1 = f(psubst_atom(p, a, ONE))
    if d is not True:
        with assuming(not_(c)) as ok:
            if ok:
                r0 = f(psubst_atom(p, a, ZERO))
    if r1 is None:
        return r0
    if r0 is None:
        return r1
    return ite(c, r1, r0)


def _oob(k):
    e = elemkind(k)
    return wrapnum(_mk('oob', e)) if e in ('i', 'r') else _mk('oob', e)


_rowlen = {}


def rowlen(s):
    """length of the rows of a comprehension if all rows are equally long"""
    key = (s, G.facts)
    if key in _rowlen:
        return _rowlen[key]
    x = fresh('x', 'i', 'nn')
    b = open_(s, x)
    old = G.facts
    if G.facts is not None:
        G.facts = G.facts.assume(and_(ge0(A(x)), lt(A(x), s.a[0])))
    try:
        l = len_(b)
        if x in l.fs and G.facts is not None:
            l = G.facts.simp(l)
    finally:
        G.facts = old
    r = None if x in l.fs else l
    _rowlen[key] = r
    return r


def cat(k, *ss):
    parts = []
    for s in ss:
        if s.op == 'cat':
            for p in s.a[0]:
                _catpush(parts, p, k)
        elif isempty(s):
            continue
        else:
            _catpush(parts, s, k)
    if not parts:
        return empty(k)
    if len(parts) == 1:
        return parts[0]
    return _mk('cat', parts[0].k, tuple(parts))


def _catpush(parts, p, k):
    if isempty(p):
        return
    if p.op == 'slice' and p.a[2] is ZERO:
        return
    if p.op == 'top':
        parts[:] = [p]
        return
    if parts and parts[-1].op == 'top':
        return
    while parts:
        q = parts[-1]
        m = _catmerge(q, p, parts)
        if m is None:
            break
        parts.pop()
        p = m
        if isempty(p):
            return
    parts.append(p)


def _catmerge(q, p, parts):
    if q.op == 'elems' and p.op == 'elems':
        return elems(p.k, q.a[0] + p.a[0])
    if p.op == 'slice' and q.op == 'slice' and p.a[0] is q.a[0] and padd(q.a[1], q.a[2]) is p.a[1]:
        return slice_(p.a[0], q.a[1], padd(q.a[2], p.a[2]))
    if p.op == 'ite' and q.op == 'ite' and p.a[0] is q.a[0]:
        return ite(p.a[0], cat(p.k, q.a[1], p.a[1]), cat(p.k, q.a[2], p.a[2]))
    if p.op == 'comp':
        # q ++ comp(N,f) with q == f(-1)
        if q.op != 'comp' and (q.op != 'cat'):
            f = bodyat_cached(p, -1)
            if f is q and not isempty(f):
                return _shiftcomp(p, -1)
            if q.op == 'elems' and f.op == 'elems' and f.a[0] and len(q.a[0]) > len(f.a[0]) and \
                    q.a[0][-len(f.a[0]):] == f.a[0]:
                rest = elems(q.k, q.a[0][:-len(f.a[0])])
                parts.pop()
                parts.append(rest)
                m = _shiftcomp(p, -1)
                parts.append(m)      # popped by caller
                return m
    if q.op == 'comp':
        if p.op == 'comp':
            # comp(N,f) ++ comp(M, f(.+N))
            x = fresh('x', 'i', 'nn')
            n, m = q.a[0], p.a[0]
            if subst(open_(q, x), {x: padd(A(x), n)}) is open_(p, x):
                return comp(padd(n, m), x, open_(q, x))
        else:
            f = bodyat(q, q.a[0])
            if f is p and not isempty(f):
                x = fresh('x', 'i', 'nn')
                return comp(padd(q.a[0], ONE), x, open_(q, x))
            if p.op == 'elems' and f.op == 'elems' and f.a[0] and len(p.a[0]) > len(f.a[0]) and \
                    p.a[0][:len(f.a[0])] == f.a[0]:
                x = fresh('x', 'i', 'nn')
                m = comp(padd(q.a[0], ONE), x, open_(q, x))
                return cat(p.k, m, elems(p.k, p.a[0][len(f.a[0]):]))
    return None


_bac = {}


def bodyat_cached(t, i):
    key = (t, i, G.facts)
    r = _bac.get(key)
    if r is None:
        r = bodyat(t, C(i))
        _bac[key] = r
    return r


def _shiftcomp(p, d):
    x = fresh('x', 'i', 'nn')
    n = padd(p.a[0], C(-d))
    return comp(n, x, subst(open_(p, x), {x: padd(A(x), C(d))}))


def comp(n, x, row):
    """concatenation of row(x) for x = 0..n-1"""
    k = row.k
    if row.op == 'top':
        return row
    if not n.d or isempty(row):
        return empty(k)
    c = cint(n)
    if c is not None:
        if c <= 0:
            return empty(k)
        if c <= 40 or (c <= 400 and row.sz < 60):
            return cat(k, *[subst(row, {x: C(j)}) for j in range(c)])
    li = _argind(n)
    if li is not None and x not in li.fs:
        return lifted2(lambda p: comp(p, x, row), n)
    if row.op == 'slice' and x not in row.a[0].fs:
        # contiguous slices of one array
        base, a, l = row.a
        if x not in l.fs:
            a0 = subst(a, {x: ZERO})
            if psub(a, padd(a0, pmul(A(x), l))) is ZERO:
                return slice_(base, a0, pmul(n, l))
    if row.op == 'elems' and len(row.a[0]) >= 1:
        es = row.a[0]
        L = len(es)
        e0 = es[0]
        s0 = _asat(e0)
        if s0 is not None and x not in s0[0].fs:
            base, a = s0
            ok = True
            for j in range(1, L):
                s = _asat(es[j])
                if s is None or s[0] is not base or psub(s[1], padd(a, C(j))) is not ZERO:
                    ok = False
                    break
            if ok:
                a0 = subst(a, {x: ZERO})
                if psub(a, padd(a0, pmul(A(x), C(L)))) is ZERO:
                    return slice_(base, a0, pmul(n, C(L)))
    if row.op == 'comp' and x not in row.a[0].fs:
        # flatten nested comprehensions with single element rows (x*M + y)
        m = row.a[0]
        y = fresh('y', 'i', 'nn')
        inner = open_(row, y)
        if inner.op == 'elems' and len(inner.a[0]) == 1:
            e = inner.a[0][0]
            if e.op == 'P':
                z = fresh('z', 'i', 'nn')
                f = _as_flat(e, x, y, m)
                if f is not None:
                    z, e2 = f
                    return comp(pmul(n, m), z, elems(k, [e2]))
            s0 = _asat(e)
    # whole rows: comp over i of at(F,i) style fusion
    r = _fuse(n, x, row)
    if r is not None:
        return r
    if x not in row.fs and row.op == 'comp':
        pass
    b = close(x, row)
    return _mk('comp', k, n, b)


def _as_flat(e, x, y, m):
    """rewrite an expression of x,y that only depends on x*m+y"""
    if x not in e.fs and y not in e.fs:
        z = fresh('z', 'i', 'nn')
        return z, e
    z = fresh('z', 'i', 'nn')
    # y := z - x*m must eliminate x
    e2 = subst(e, {y: psub(A(z), pmul(A(x), m))})
    if x in e2.fs:
        return None
    return z, e2


def _asat(e):
    """(base, index) if e is the atom at(base,index)"""
    if e.op == 'P':
        if len(e.d) == 1:
            (m, c), = e.d.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'at':
                return m[0][0].a
        return None
    if e.op == 'at':
        return e.a
    return None


def _fuse(n, x, row):
    """comp(len F, i -> r(F[i])) with F a selection comp(N, y->ite(c,[e],[]))"""
    cand = None
    for t in _find_at(row, x):
        s = t.a[0]
        if s.op == 'comp' and len_(s) is n:
            cand = t
            break
    if cand is None:
        return None
    F = cand.a[0]
    v = fresh('v', cand.k if cand.k in ('i', 'r') else cand.k)
    rep = A(v) if cand.k in ('i', 'r') else v
    r2 = subst(row, {cand: rep})
    if x in r2.fs:
        return None
    y = fresh('y', 'i', 'nn')
    b = open_(F, y)
    out = _fuse_row(b, v, r2)
    if out is None:
        return None
    return comp(F.a[0], y, out)


def _fuse_row(b, v, r2):
    if b.op == 'ite':
        p = _fuse_row(b.a[1], v, r2)
        q = _fuse_row(b.a[2], v, r2)
        if p is None or q is None:
            return None
        return ite(b.a[0], p, q)
    if b.op == 'elems':
        return cat(r2.k, *[subst(r2, {v: e}) for e in b.a[0]])
    if b.op == 'cat':
        ps = [_fuse_row(z, v, r2) for z in b.a[0]]
        if any(z is None for z in ps):
            return None
        return cat(r2.k, *ps)
    return None


def _find_at(t, x):
    seen = set()
    out = []
    st = [t]
    px = A(x)
    while st:
        t = st.pop()
        if t.__class__ is tuple:
            st.extend(t)
            continue
        if t.__class__ is not T or t in seen:
            continue
        seen.add(t)
        if x not in t.fs:
            continue
        if t.op == 'at' and t.a[1] is px and x not in t.a[0].fs:
            out.append(t)
        st.extend(t.a)
    return out


def tab(n, x, e):
    """sequence of the values e(x), x=0..n-1"""
    k = 's' + (('i' if isint(e) else 'r') if e.op == 'P' else e.k)
    return comp(n, x, elems(k, [e]))


def rep(n, v, k=None):
    k = k or 's' + (('i' if isint(v) else 'r') if v.op == 'P' else v.k)
    x = fresh('x', 'i', 'nn')
    return comp(n, x, elems(k, [v]))


def slice_(s, a, n):
    """n elements from position a"""
    k = s.k
    if not n.d:
        return empty(k)
    if s.op == 'top':
        return s
    c = cint(n)
    if c is not None and c < 0:
        return empty(k)
    op = s.op
    if not a.d:
        l = len_(s)
        if l is n or (op not in ('elems', 'sym') and prove(eq0(psub(l, n)))):
            return s
        if op == 'sym' and prove(eq0(psub(l, n))):
            return s
    if op == 'elems':
        ca, cn = cint(a), cint(n)
        if ca is not None and cn is not None:
            return elems(k, s.a[0][ca:ca + cn])
        if cn is not None and cn <= 32:
            return elems(k, [at(s, padd(a, C(j))) for j in range(cn)])
    if op == 'slice':
        return slice_(s.a[0], padd(s.a[1], a), n)
    if op == 'ite':
        return ite(s.a[0], slice_(s.a[1], a, n), slice_(s.a[2], a, n))
    li = _argind(a)
    if li is not None:
        r = lifted2(lambda p: slice_(s, p, n), a)
        if r is not None:
            return r
    li = _argind(n)
    if li is not None:
        r = lifted2(lambda p: slice_(s, a, p), n)
        if r is not None:
            return r
    if op == 'cat':
        parts = s.a[0]
        off = ZERO
        out = []
        end = padd(a, n)
        ok = True
        for i, p in enumerate(parts):
            l = len_(p)
            nxt = padd(off, l)
            last = i == len(parts) - 1
            # entirely before the slice
            if not last and prove(le(nxt, a)):
                off = nxt
                continue
            # entirely after
            if prove(le(end, off)):
                break
            starts = prove(le(a, off))
            ends = last or prove(le(nxt, end))
            if starts and ends:
                if last:
                    m = psub(end, off)
                    out.append(slice_(p, ZERO, m))
                else:
                    out.append(p)
            elif not starts and ends:
                if prove(ge0(psub(a, off))):
                    out.append(slice_(p, psub(a, off), psub(end if last else nxt, a)))
                else:
                    ok = False
                    break
            elif starts and prove(le(end, nxt)):
                out.append(slice_(p, ZERO, psub(end, off)))
                off = nxt
                break
            elif prove(ge0(psub(a, off))) and prove(le(end, nxt)):
                out.append(slice_(p, psub(a, off), n))
                off = nxt
                break
            else:
                ok = False
                break
            off = nxt
        if ok:
            return cat(k, *out)
    if op == 'comp':
        L = rowlen(s)
        if L is not None:
            q = idiv(a, L)
            r = psub(a, pmul(q, L))
            if not r.d:
                m = polydiv(n, L)
                if m is not None and not m[1].d:
                    if m[0] is ONE:
                        return bodyat(s, q)
                    x = fresh('x', 'i', 'nn')
                    return comp(m[0], x, subst(open_(s, x), {x: padd(A(x), q)}))
            if prove(ge0(r)) and prove(le(padd(r, n), L)):
                return slice_(bodyat(s, q), r, n)
            # rest of a row sequence starting inside: leave
    if op == 'upd':
        base, pos, w = s.a
        l = len_(w)
        if prove(le(padd(a, n), pos)) or prove(le(padd(pos, l), a)):
            return slice_(base, a, n)
        if prove(le(pos, a)) and prove(le(padd(a, n), padd(pos, l))):
            return slice_(w, psub(a, pos), n)
        if prove(le(a, pos)) and prove(le(padd(pos, l), padd(a, n))):
            return cat(k, slice_(base, a, psub(pos, a)), w,
                       slice_(base, padd(pos, l), psub(padd(a, n), padd(pos, l))))
    if c is not None and c <= 12:
        return elems(k, [at(s, padd(a, C(j))) for j in range(c)])
    return _mk('slice', k, s, a, n)


def upd(s, pos, w):
    """s with the elements from pos on overwritten by w"""
    if isempty(w):
        return s
    if s.op == 'top':
        return s
    if w.op == 'top':
        return w
    k = s.k
    if s.op == 'elems':
        c = cint(pos)
        l = cint(len_(w))
        if c is not None and l is not None:
            xs = list(s.a[0])
            if c >= 0 and c + l <= len(xs):
                for j in range(l):
                    xs[c + j] = at(w, C(j))
                return elems(k, xs)
        if l is not None and l == 1 and len(s.a[0]) <= 32:
            v = at(w, ZERO)
            return elems(k, [ite(eq0(psub(pos, C(j))), v, e) for j, e in enumerate(s.a[0])])
    lw = len_(w)
    ls = len_(s)
    if not pos.d and (lw is ls or prove(eq0(psub(lw, ls)))):
        return w
    if s.op == 'ite':
        return ite(s.a[0], upd(s.a[1], pos, w), upd(s.a[2], pos, w))
    if s.op == 'upd':
        base, p2, w2 = s.a
        l2 = len_(w2)
        if padd(p2, l2) is pos:
            return upd(base, p2, cat(k, w2, w))
        if padd(pos, lw) is p2:
            return upd(base, pos, cat(k, w, w2))
        if p2 is pos and lw is l2:
            return upd(base, pos, w)
        # inside the earlier write
        if prove(le(p2, pos)) and prove(le(padd(pos, lw), padd(p2, l2))):
            return upd(base, p2, upd(w2, psub(pos, p2), w))
        # independent writes: keep in order of position when it can be decided
        if prove(le(padd(pos, lw), p2)):
            return _mk('upd', k, upd(base, pos, w), p2, w2)
    if s.op in ('cat', 'comp', 'slice', 'elems'):
        a = slice_(s, ZERO, pos)
        b = slice_(s, padd(pos, lw), psub(ls, padd(pos, lw)))
        if a.op != 'slice' or b.op != 'slice' or s.op == 'slice':
            if s.op != 'slice':
                return cat(k, a, w, b)
    return _mk('upd', k, s, pos, w)


# --------------------------------------------------------------------------
# sums and folds over an index

def _xshift(t, x):
    """if every occurrence of x in t is in polynomials as x + c with the same
    int c>0, return c"""
    seen = set()
    cs = set()

    def visit(t):
        if t.__class__ is tuple:
            return all(visit(y) for y in t)
        if t.__class__ is not T:
            return True
        if x not in t.fs or t in seen:
            return True
        seen.add(t)
        if t is x:
            return False
        if t.op == 'P':
            d = t.d
            has = None
            for m, c in d.items():
                for a, e in m:
                    if a is x:
                        if len(m) != 1 or e != 1:
                            return False
                        has = c
            if has is not None:
                c0 = d.get((), 0)
                if has == 1 and c0.__class__ is int:
                    cs.add(c0)
                elif has == -1 and c0.__class__ is int:
                    cs.add(-c0)
                else:
                    return False
            for m, c in d.items():
                for a, e in m:
                    if a is not x and not visit(a):
                        return False
            return True
        return all(visit(y) for y in t.a)
    if not visit(t) or len(cs) != 1:
        return None
    c, = cs
    return c if c > 0 else None


def sum_(n, x, e):
    """sum of e(x) for x=0..n-1"""
    if not e.d or not n.d:
        return ZERO
    c = cint(n)
    if c is not None:
        if c <= 0:
            return ZERO
        if c <= 40:
            r = ZERO
            for j in range(c):
                r = padd(r, subst(e, {x: C(j)}))
            return r
    if x not in e.fs:
        if prove(ge0(n)):
            return pmul(e, n)
        return pmul(e, ite(ge0(n), n, ZERO))
    li = _argind(n)
    if li is not None and x not in li.fs:
        return lifted(lambda p: sum_(p, x, e), n)
    r = ZERO
    for m, c in e.d.items():
        free = tuple((a, ex) for a, ex in m if x not in a.fs)
        dep = tuple((a, ex) for a, ex in m if x in a.fs)
        f = _poly({free: c})
        if not dep:
            r = padd(r, pmul(f, n if prove(ge0(n)) else ite(ge0(n), n, ZERO)))
            continue
        if len(dep) == 1 and dep[0][0] is x and dep[0][1] <= 2 and prove(ge0(n)):
            if dep[0][1] == 1:
                s = pscale(pmul(n, psub(n, ONE)), Fraction(1, 2))
            else:
                s = pscale(pmul(pmul(n, psub(n, ONE)), psub(pscale(n, 2), ONE)), Fraction(1, 6))
            r = padd(r, pmul(f, s))
            continue
        r = padd(r, pmul(f, _sum1(n, x, dep)))
    return r


def _sum1(n, x, dep):
    # threshold counts: sum [x < t] = min(n, t), sum [x >= t] = n - ...
    if len(dep) == 1 and dep[0][0].op == 'ind':
        cnd = dep[0][0].a[0]
        if cnd.op == 'ge0':
            p = cnd.a[0]
            cx = p.d.get(((x, 1),), 0)
            rest = psub(p, pscale(A(x), cx))
            if x not in rest.fs and prove(ge0(n)):
                if cx == 1:
                    # x >= -rest =: t ; count = n - clamp(t,0,n)
                    t = pneg(rest)
                    cl = ite(ge0(pneg(t)), ZERO, ite(ge0(psub(t, n)), n, t))
                    return psub(n, cl)
                if cx == -1:
                    # x <= rest ; count of x < rest+1
                    t = padd(rest, ONE)
                    return ite(ge0(pneg(t)), ZERO, ite(ge0(psub(t, n)), n, t))
        if cnd.op == 'eq0':
            p = cnd.a[0]
            cx = p.d.get(((x, 1),), 0)
            if cx in (1, -1):
                t = pscale(psub(p, pscale(A(x), cx)), -cx)
                if x not in t.fs and isint(t):
                    return ind(and_(ge0(t), lt(t, n)))
    if len(dep) > 1:
        # indicator of an equality x = t selects one term
        for a, e in dep:
            if a.op == 'ind' and a.a[0].op == 'eq0':
                p = a.a[0].a[0]
                cx = p.d.get(((x, 1),), 0)
                if cx in (1, -1):
                    t = pscale(psub(p, pscale(A(x), cx)), -cx)
                    if x not in t.fs and isint(t):
                        rest = _poly({tuple(z for z in dep if z[0] is not a): 1})
                        return pmul(ind(and_(ge0(t), lt(t, n))), subst(rest, {x: t}))
    body = _poly({dep: 1})
    c = _xshift(body, x)
    if c is not None and prove(ge0(n)):
        b2 = subst(body, {x: psub(A(x), C(c))})
        r = _sum1(padd(n, C(c)), x, list(b2.d)[0]) if len(b2.d) == 1 else sum_(padd(n, C(c)), x, b2)
        for j in range(c):
            r = psub(r, subst(b2, {x: C(j)}))
        return r
    # sum over a concatenation of uniform comps etc. stays
    k = 'i' if isint(body) else 'r'
    return A(_mk('sum', k, n, close(x, body)))


def fmm(which):
    def f(n, x, e):
        c = cint(n)
        if c is not None:
            if c <= 0:
                return A(INF) if which == 'min' else pneg(A(INF))
            if c <= 24:
                return _minmax(which, [subst(e, {x: C(j)}) for j in range(c)])
        if x not in e.fs:
            return ite(ge0(padd(n, C(-1))), e, A(INF) if which == 'min' else pneg(A(INF)))
        sh = _xshift(e, x)
        return A(_mk('f' + which, 'i' if isint(e) else 'r', n, close(x, e)))
    return f


def first(n, x, c):
    """least x in [0,n) with c(x), n if there is none (a polynomial)"""
    if c is FALSE or not n.d:
        return n
    if c is TRUE:
        return ite(ge0(padd(n, C(-1))), ZERO, n)
    if x not in c.fs:
        return ite(c, ite(ge0(padd(n, C(-1))), ZERO, n), n)
    cn = cint(n)
    if cn is not None and cn <= 24:
        r = n
        for j in range(cn - 1, -1, -1):
            r = ite(subst(c, {x: C(j)}), C(j), r)
        return r
    return A(_mk('first', 'i', n, close(x, c)))


def ex(n, x, c):
    """there is x in [0,n) with c(x)"""
    if c is FALSE or not n.d:
        return FALSE
    if x not in c.fs:
        return and_(c, ge0(padd(n, C(-1))))
    cn = cint(n)
    if cn is not None:
        if cn <= 0:
            return FALSE
        if cn <= 40:
            return or_(*[subst(c, {x: C(j)}) for j in range(cn)])
    if c.op == 'or':
        return or_(*[ex(n, x, y) for y in c.a[0]])
    if c.op == 'and':
        fr = [y for y in c.a[0] if x not in y.fs]
        if fr:
            de = [y for y in c.a[0] if x in y.fs]
            return and_(*(fr + [ex(n, x, and_(*de))]))
        c2 = _absorb_range(n, x, c)
        if c2 is not None:
            return c2
    sh = _xshift(c, x)
    if sh is not None and prove(ge0(n)):
        b2 = subst(c, {x: psub(A(x), C(sh))})
        heads = [subst(b2, {x: C(j)}) for j in range(sh)]
        if all(decide(h) is False for h in heads):
            return ex(padd(n, C(sh)), x, b2)
    lit = c.a[0] if c.op == 'not' else c
    if lit.op in ('ge0', 'eq0'):
        # x itself linear with free rest: closed form
        p = lit.a[0]
        cx = p.d.get(((x, 1),), 0)
        if cx in (1, -1):
            rest = psub(p, pscale(A(x), cx))
            if x not in rest.fs and isint(rest):
                if lit.op == 'ge0' and c is lit:
                    if cx == 1:   # x >= -rest for some x<n  <=> n-1 >= -rest and n>=1
                        return and_(ge0(padd(n, C(-1))), ge0(padd(padd(n, C(-1)), rest)))
                    return and_(ge0(padd(n, C(-1))), ge0(rest))
                if lit.op == 'ge0':
                    if cx == 1:   # not x >= -rest : x < -rest : x=0
                        return and_(ge0(padd(n, C(-1))), not_(ge0(rest)))
                    # not (rest - x >= 0): x > rest : n-1 > rest
                    return and_(ge0(padd(n, C(-1))), lt(rest, padd(n, C(-1))))
                if lit.op == 'eq0' and c is lit:
                    t = pscale(rest, -cx)
                    return and_(ge0(t), lt(t, n))
    return _mk('ex', 'b', n, close(x, c))


def _absorb_range(n, x, c):
    """and(x<m, d(x)) -> ex(min(n,m), d);  and(x>=1, d)...: only x<m, x>=m"""
    for y in c.a[0]:
        lit, pos = (y.a[0], False) if y.op == 'not' else (y, True)
        if lit.op != 'ge0':
            continue
        p = lit.a[0]
        cx = p.d.get(((x, 1),), 0)
        if cx not in (1, -1):
            continue
        rest = psub(p, pscale(A(x), cx))
        if x in rest.fs or not isint(rest):
            continue
        others = and_(*[z for z in c.a[0] if z is not y])
        upper = None
        if cx == 1 and not pos:      # x < -rest
            upper = pneg(rest)
        elif cx == -1 and pos:       # x <= rest
            upper = padd(rest, ONE)
        if upper is not None:
            return ex(min_(n, upper), x, others)
        # lower bound x >= lo : shift
        lo = pneg(rest) if (cx == 1 and pos) else padd(rest, ONE)
        if prove(ge0(lo)):
            m = psub(n, lo)
            if not prove(ge0(m)):
                m = ite(ge0(m), m, ZERO)
            return ex(m, x, subst(others, {x: padd(A(x), lo)})) if cint(lo) == 0 else None
    return None


BUILD = {'sum': sum_, 'fmin': fmm('min'), 'fmax': fmm('max'), 'first': first, 'ex': ex}


# --------------------------------------------------------------------------
# equality of non numeric values

def eqt(a, b):
    """boolean term: a == b for sequences and other values"""
    if a is b:
        return TRUE
    if a.k[0] == 's' and b.k[0] == 's':
        if a.op == 'elems' and b.op == 'elems':
            if len(a.a[0]) != len(b.a[0]):
                return FALSE
            return and_(*[eq(x, y) for x, y in zip(a.a[0], b.a[0])])
        if a.op == 'ite':
            return ite(a.a[0], eqt(a.a[1], b), eqt(a.a[2], b))
        if b.op == 'ite':
            return ite(b.a[0], eqt(a, b.a[1]), eqt(a, b.a[2]))
        la, lb = len_(a), len_(b)
        le_ = eq0(psub(la, lb))
        d = decide(le_)
        if d is False:
            return FALSE
        ek = elemkind(a.k)
        if ek in ('i', 'r'):
            x = fresh('x', 'i', 'nn')
            old = G.facts
            if G.facts is not None:
                G.facts = G.facts.assume(and_(le_, ge0(A(x)), lt(A(x), la)))
            try:
                ne = not_(eq(at(a, A(x)), at(b, A(x))))
            finally:
                G.facts = old
            return and_(le_, not_(ex(la, x, ne)))
    if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
        return and_(*[eq(x[1], y[1]) for x, y in zip(a.a[1], b.a[1])])
    if a.op == 'ite':
        return ite(a.a[0], eq(a.a[1], b), eq(a.a[2], b))
    if b.op == 'ite':
        return ite(b.a[0], eq(a, b.a[1]), eq(a, b.a[2]))
    if a.op == 'ptr' and b.op == 'ptr' or a.op in ('null', 'fnref') or b.op in ('null', 'fnref'):
        if a.op == 'ptr' and b.op == 'ptr' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            cs = []
            for x, y in zip(a.a[1], b.a[1]):
                if x[0] == 'i' and y[0] == 'i':
                    cs.append(eq(x[1], y[1]))
                elif x != y:
                    return FALSE
            return and_(*cs)
        return FALSE
    if a.k == 'b' and b.k == 'b':
        return or_(and_(a, b), and_(not_(a), not_(b)))
    if a.id > b.id:
        a, b = b, a
    return _mk('eqt', 'b', a, b)


# --------------------------------------------------------------------------
# rebuild table

def _rb(f):
    return f


REBUILD = {
    'sym': lambda t, r: t if len(t.a) < 2 or t.k[0] != 's' or not (t.a[1].fs & r.keys) and not r.force else t,
    'bv': lambda t, r: t,
    'true': lambda t, r: t,
    'false': lambda t, r: t,
    'ge0': lambda t, r: ge0(r.go(t.a[0])),
    'gt0': lambda t, r: gt0(r.go(t.a[0])),
    'eq0': lambda t, r: eq0(r.go(t.a[0])),
    'eqt': lambda t, r: eq(r.go(t.a[0]), r.go(t.a[1])),
    'not': lambda t, r: not_(r.go(t.a[0])),
    'and': lambda t, r: and_(*[r.go(x) for x in t.a[0]]),
    'or': lambda t, r: or_(*[r.go(x) for x in t.a[0]]),
    'iteb': lambda t, r: ite_r(t, r),
    'ind': lambda t, r: ind_r(t, r),
    'ite': lambda t, r: ite_r(t, r),
    'idiv': lambda t, r: idiv(r.go(t.a[0]), r.go(t.a[1])),
    'mod': lambda t, r: imod(r.go(t.a[0]), r.go(t.a[1])),
    'inv': lambda t, r: pinv(r.go(t.a[0])),
    'sqrt': lambda t, r: sqrt_(r.go(t.a[0])),
    'abs': lambda t, r: abs_(r.go(t.a[0])),
    'min': lambda t, r: _minmax('min', [r.go(x) for x in t.a[0]]),
    'max': lambda t, r: _minmax('max', [r.go(x) for x in t.a[0]]),
    'trunc': lambda t, r: trunc_(r.go(t.a[0])),
    'floor': lambda t, r: floor_(r.go(t.a[0])),
    'uf': lambda t, r: _rebuild_raw(t, r.go),
    'len': lambda t, r: len_(r.go(t.a[0])),
    'at': lambda t, r: at(r.go(t.a[0]), r.go(t.a[1])),
    'slice': lambda t, r: slice_(r.go(t.a[0]), r.go(t.a[1]), r.go(t.a[2])),
    'upd': lambda t, r: upd(r.go(t.a[0]), r.go(t.a[1]), r.go(t.a[2])),
    'cat': lambda t, r: cat(t.k, *[r.go(x) for x in t.a[0]]),
    'elems': lambda t, r: elems(t.k, [r.go(x) for x in t.a[0]]),
    'rec': lambda t, r: _mk('rec', 'o', t.a[0], tuple((n, r.go(v)) for n, v in t.a[1])),
    'fld': lambda t, r: wrapnum(fld(r.go(t.a[0]), t.a[1], t.k)),
}


def fld(v, name, k):
    if v.op == 'rec':
        for n, x in v.a[1]:
            if n == name:
                return x
    if v.op == 'ite':
        return ite(v.a[0], wrapnum(fld(v.a[1], name, k)), wrapnum(fld(v.a[2], name, k)))
    return _mk('fld', k, v, name)


def ite_r(t, r):
    c = r.go(t.a[0])
    d = decide(c)
    if d is True:
        return r.go(t.a[1])
    if d is False:
        return r.go(t.a[2])
    return ite(c, r.go(t.a[1]), r.go(t.a[2]))


def ind_r(t, r):
    c = r.go(t.a[0])
    d = decide(c)
    if d is True:
        return ONE
    if d is False:
        return ZERO
    return ind(c)


# --------------------------------------------------------------------------
# printing

def show(t, depth=0):
    if t.__class__ is tuple:
        return '(' + ','.join(show(x) for x in t) + ')'
    if t.__class__ is not T:
        return str(t)
    if depth > 14:
        return '…'
    op = t.op
    sh = lambda x: show(x, depth + 1)
    if op == 'P':
        if not t.d:
            return '0'
        out = []
        for m, c in t.a[0]:
            ms = '*'.join((sh(a) + ('^%d' % e if e != 1 else '')) for a, e in m)
            if not ms:
                s = str(c)
            elif c == 1:
                s = ms
            elif c == -1:
                s = '-' + ms
            else:
                s = '%s*%s' % (c, ms)
            out.append(s)
        return ('(' + ' + '.join(out) + ')') if len(out) > 1 else out[0]
    if op == 'sym':
        return t.a[0]
    if op == 'bv':
        return 'b%d' % t.a[0]
    if op in ('true', 'false', 'null'):
        return op
    if op == 'ge0':
        return '%s>=0' % sh(t.a[0])
    if op == 'gt0':
        return '%s>0' % sh(t.a[0])
    if op == 'eq0':
        return '%s==0' % sh(t.a[0])
    if op == 'not':
        return '!(%s)' % sh(t.a[0])
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(sh(x) for x in t.a[0]) + ')'
    if op == 'ind':
        return '[%s]' % sh(t.a[0])
    if op == 'at':
        return '%s[%s]' % (sh(t.a[0]), sh(t.a[1]))
    if op == 'len':
        return '|%s|' % sh(t.a[0])
    if op == 'elems':
        if t.k == 'si' and t.a[0] and all(x.op == 'P' and isconst(x) for x in t.a[0]):
            try:
                return '"' + ''.join(chr(cval(x)) for x in t.a[0]) + '"'
            except Exception:
                pass
        return '<' + ', '.join(sh(x) for x in t.a[0]) + '>'
    if op == 'cat':
        return '{' + ' ++ '.join(sh(x) for x in t.a[0]) + '}'
    if op in BINDERS:
        return '%s(b%d<%s: %s)' % (op, 1 + t.a[1].lv, sh(t.a[0]), sh(t.a[1]))
    if op == 'uf':
        return '%s(%s)' % (t.a[0], ', '.join(sh(x) for x in t.a[1]))
    if op == 'rec':
        return '%s{%s}' % (str(t.a[0]).split('::')[-1], ', '.join('%s:%s' % (n, sh(v)) for n, v in t.a[1]))
    if op == 'ptr':
        return '&%s%s' % (t.a[0], ''.join(('.%s' % p[1]) if p[0] == 'f' else '[%s]' % sh(p[1]) for p in t.a[1]))
    return '%s(%s)' % (op, ', '.join(sh(x) if x.__class__ is T else str(x) for x in t.a))
