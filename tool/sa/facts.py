"""Facts known at a program point: literals, equalities (used as rewrites),
linear inequalities (decided by Fourier-Motzkin elimination over monomials) and
universally quantified facts left behind by loops."""
from fractions import Fraction
import os
from math import gcd, floor
from . import core as c
from .core import T, A, C, TRUE, FALSE, ZERO, ONE, G

STATS = {'fm': 0, 'decide': 0}


# inequalities tried, and how many before case distinctions are given up
EFFORT = [0, int(os.environ.get("SA_EFFORT", "12000"))]
NEST = [0, 0, 0]


class Alts:
    __slots__ = ('alts', 'fs')

    def __init__(self, xs):
        self.alts = tuple(xs)
        self.fs = frozenset().union(*[x.fs for x in xs])


class Facts:
    __slots__ = ('parent', 'lit', 'lits', 'ges', 'sub', 'disj', 'foralls', 'bad', 'memo', 'kids',
                 'simpm', 'depth', 'order')

    def __init__(self, parent=None, lit=None):
        self.parent = parent
        self.lit = lit
        self.bad = False
        self.memo = {}
        self.kids = {}
        self.simpm = {}
        if parent is None:
            self.lits = {}
            self.ges = ()
            self.sub = {}
            self.disj = ()
            self.foralls = ()
            self.depth = 0
            self.order = ()
        else:
            self.lits = parent.lits
            self.ges = parent.ges
            self.sub = parent.sub
            self.disj = parent.disj
            self.foralls = parent.foralls
            self.depth = parent.depth + 1
            self.order = parent.order + (lit,)
            self.bad = parent.bad

    def chain(self):
        """literals assumed, oldest first"""
        return self.order

    def assume(self, lit):
        if lit is TRUE or self.bad:
            return self
        k = self.kids.get(lit)
        if k is None:
            k = self._assume(lit)
            self.kids[lit] = k
        return k

    def force(self, lit):
        """add a literal although it follows from what is known"""
        k = self.kids.get(('force', lit))
        if k is None:
            k = Facts(self, lit)
            k.lits = dict(self.lits)
            k._add(lit, True)
            k._units()
            self.kids[('force', lit)] = k
        return k

    def _assume(self, lit):
        old = G.facts
        G.facts = self
        try:
            d = self.decide(lit)
        finally:
            G.facts = old
        if d is True:
            return self
        k = Facts(self, lit)
        if d is False or lit is FALSE:
            k.bad = True
            return k
        k.lits = dict(self.lits)
        k._add(lit, True)
        k._units()
        if k.sub is not self.sub:
            pass
        return k

    def _add(self, lit, top=False):
        if lit.op == 'and':
            for x in lit.a[0]:
                self._add(x)
            return
        if lit.op == 'not':
            y = lit.a[0]
            if y.op == 'or':
                for x in y.a[0]:
                    self._add(c.not_(x))
                return
            self.lits[y] = False
            self.lits[lit] = True
            self._arith(y, False)
            return
        self.lits[lit] = True
        if lit.op == 'or':
            self._alts(lit.a[0])
            return
        self._arith(lit, True)

    def _alts(self, xs):
        self.disj = self.disj + (Alts(xs),)

    def _false(self, x):
        if x is FALSE or self.lits.get(x) is False:
            return True
        if x.op == 'not':
            return self.lits.get(x.a[0]) is True
        if x.op == 'and':
            return any(self._false(y) for y in x.a[0])
        if x.op == 'or':
            return all(self._false(y) for y in x.a[0])
        return False

    def _units(self):
        """disjunctions of which one alternative is left"""
        n = 0
        while n < 4:
            n += 1
            more = False
            for dj in self.disj:
                left = [x for x in dj.alts if not self._false(x)]
                if len(left) == len(dj.alts):
                    continue
                self.disj = tuple(d for d in self.disj if d is not dj)
                if not left:
                    self.bad = True
                    return
                if len(left) == 1:
                    if self.lits.get(left[0]) is not True:
                        self._add(left[0])
                else:
                    self.disj = self.disj + (Alts(left),)
                more = True
                break
            if not more:
                return

    def _arith(self, y, truth):
        op = y.op
        if op == 'ge0':
            p = y.a[0]
            if truth:
                self._ge(p, False)
            elif c.isint(p):
                self._ge(c.padd(c.pneg(p), C(-1)), False)
            else:
                self._ge(c.pneg(p), True)
        elif op == 'gt0':
            p = y.a[0]
            if truth:
                self._ge(p, True)
            else:
                self._ge(c.pneg(p), False)
        elif op == 'eq0':
            p = y.a[0]
            if truth:
                self._eq(p)
            elif c.isint(p):
                # p != 0
                if self.parent.prove_ge(p):
                    self._ge(c.padd(p, C(-1)), False)
                elif self.parent.prove_ge(c.pneg(p)):
                    self._ge(c.padd(c.pneg(p), C(-1)), False)
        elif op == 'iteb':
            if truth:
                self._alts((c.and_(y.a[0], y.a[1]), c.and_(c.not_(y.a[0]), y.a[2])))
            else:
                self._alts((c.and_(y.a[0], c.not_(y.a[1])), c.and_(c.not_(y.a[0]), c.not_(y.a[2]))))
        elif op == 'and' and not truth:
            self._alts(tuple(c.not_(x) for x in y.a[0]))
        elif op == 'ex' and not truth:
            self.foralls = self.foralls + (y,)
        elif op == 'eqt' and truth:
            a, b = y.a
            if a.op == 'sym' or (b.op != 'sym' and a.id > b.id):
                a, b = b, a
            # rewrite b -> a (never to a term containing b)
            if not _contains(a, b):
                self._addsub(b, a)
            elif not _contains(b, a):
                self._addsub(a, b)

    def _ge(self, p, strict):
        ne = self.lits.get(c._mk('eq0', 'b', c._normsign(p)[0])) if not strict and not c.isconst(p) else None
        if ne is False and c.isint(p):
            p = c.padd(p, C(-1))
        elif ne is False:
            strict = True
        self.ges = self.ges + ((p, strict),)
        # p>=0 and -p>=0 known: equality
        if not strict and c.isint(p):
            np = c.pneg(p)
            for q, s in self.ges[:-1]:
                if q is np:
                    self._eq(p)
                    break

    def _eq(self, p):
        # factor out a common non zero atom
        self.ges = self.ges + ((p, False), (c.pneg(p), False))
        if len(p.d) > 1:
            common = None
            for m in p.d:
                s = dict(m)
                common = set(s) if common is None else common & set(s)
                if not common:
                    break
            for a in (common or ()):
                if self.parent.prove_gt(A(a)):
                    q = c.polydiv(p, A(a))
                    if q and not q[1].d:
                        p = q[0]
        # solve for an atom
        best = None
        isint = c.isint(p)
        for m, cf in p.d.items():
            if len(m) != 1 or m[0][1] != 1:
                continue
            a = m[0][0]
            if a.op in ('ind',):
                continue
            if isint and cf not in (1, -1):
                continue
            # the atom must not occur elsewhere in p
            occ = 0
            for m2 in p.d:
                for b, e in m2:
                    if b is a:
                        occ += 1
                    elif _contains(b, a):
                        occ += 5
            if occ != 1:
                continue
            if a.k == 'i' and not isint:
                continue
            rank = (1 if a.op == 'sym' else 0, a.id)
            if best is None or rank > best[0]:
                best = (rank, a, cf)
        if best is None:
            return
        _, a, cf = best
        rest = c.psub(p, c.pscale(A(a), cf))
        q = c.pscale(rest, c.norm_c(Fraction(-1) / cf))
        self._addsub(a, q)

    def _addsub(self, a, q):
        s = dict(self.sub)
        # keep triangular: rewrite existing right hand sides
        rw = c.Rewriter({a: q}, force=True)
        old = G.facts
        G.facts = None
        try:
            for k in list(s):
                if _contains(s[k], a):
                    s[k] = rw.go(s[k])
        finally:
            G.facts = old
        s[a] = q
        self.sub = s

    # ---------------------------------------------------------------
    def needs(self, t):
        for a in self.sub:
            if a.op == 'sym':
                if a in t.fs:
                    return True
            elif _contains(t, a):
                return True
        return False

    def norm(self, t):
        """apply the equalities"""
        if not self.sub or not self.needs(t):
            return t
        r = self.simpm.get(t)
        if r is None:
            old = G.facts
            G.facts = self
            try:
                r = t
                for _ in range(4):
                    r2 = c.Rewriter(self.sub, force=True).go(r)
                    if r2 is r:
                        break
                    r = r2
                    if not self.needs(r):
                        break
            finally:
                G.facts = old
            self.simpm[t] = r
        return r

    def simp(self, t):
        """re-normalise under these facts"""
        key = (t, 's')
        r = self.simpm.get(key)
        if r is None:
            old = G.facts
            G.facts = self
            try:
                r = c.Rewriter(dict(self.sub), force=True).go(t)
                if r is not t and self.sub and self.needs(r):
                    r = c.Rewriter(dict(self.sub), force=True).go(r)
            finally:
                G.facts = old
            self.simpm[key] = r
        return r

    # ---------------------------------------------------------------
    def decide(self, b):
        if b is TRUE:
            return True
        if b is FALSE:
            return False
        m = self.memo
        if b in m:
            return m[b]
        m[b] = None      # guards recursion
        STATS['decide'] += 1
        old = G.facts
        G.facts = self
        try:
            r = self._decide(b)
        finally:
            G.facts = old
        m[b] = r
        return r

    def _decide(self, b):
        r = self.lits.get(b)
        if r is not None:
            return r
        op = b.op
        if op == 'not':
            d = self.decide(b.a[0])
            return None if d is None else not d
        if op == 'and':
            res = True
            for x in b.a[0]:
                d = self.decide(x)
                if d is False:
                    return False
                if d is None:
                    res = None
            if res is None:
                res = self._by_cases(b)
            return res
        if op == 'or':
            res = False
            for x in b.a[0]:
                d = self.decide(x)
                if d is True:
                    return True
                if d is None:
                    res = None
            if res is None:
                res = self._by_cases(b)
            return res
        if op == 'iteb':
            d = self.decide(b.a[0])
            if d is True:
                return self.decide(b.a[1])
            if d is False:
                return self.decide(b.a[2])
            if NEST[0] > 3:
                return None
            NEST[0] += 1
            try:
                f = self.assume(b.a[0])
                g = self.assume(c.not_(b.a[0]))
                if f.bad:
                    return self.decide(b.a[2])
                if g.bad:
                    return self.decide(b.a[1])
                x = f.decide(b.a[1])
                if x is not None and x == g.decide(b.a[2]):
                    return x
            finally:
                NEST[0] -= 1
            return None
        if self.sub and self.needs(b):
            b2 = self.norm(b)
            if b2 is not b:
                return self.decide(b2)
        if op == 'ge0':
            p = b.a[0]
            if self.prove_ge(p):
                return True
            if self.prove_gt(c.pneg(p)):
                return False
        elif op == 'gt0':
            p = b.a[0]
            if self.prove_gt(p):
                return True
            if self.prove_ge(c.pneg(p)):
                return False
        elif op == 'eq0':
            p = b.a[0]
            g = self.prove_ge(p)
            l = self.prove_ge(c.pneg(p))
            if g and l:
                return True
            if c.isint(p):
                if g or l:
                    if g and self.prove_gt(p):
                        return False
                    if l and self.prove_gt(c.pneg(p)):
                        return False
            elif self.prove_gt(p) or self.prove_gt(c.pneg(p)):
                return False
        elif op == 'ex':
            # empty range?
            n = b.a[0]
            if self.prove_ge(c.pneg(n)):
                return False
            r = self._ex_known(b)
            if r is not None:
                return r
        r = self._by_forall(b)
        if r is not None:
            return r
        return self._by_cases(b)

    def _ex_known(self, b):
        if NEST[1] > 3 or EFFORT[0] > 3 * EFFORT[1]:
            return None
        NEST[1] += 1
        try:
            return self._ex_known2(b)
        finally:
            NEST[1] -= 1

    def _ex_known2(self, b):
        # body decided for every index
        n = b.a[0]
        x = c.fresh('x', 'i', 'nn')
        body = c.open_(b, x)
        f = self.assume(c.and_(c.ge0(A(x)), c.lt(A(x), n)))
        if f.bad:
            return False
        d = f.decide(body)
        if d is False:
            return False
        if d is True and self.prove_gt(n):
            return True
        # some instance decided true: index 0 or n-1
        if self.prove_gt(n):
            y = f  # noqa
            for t in (ZERO,):
                v = self.decide(c.subst(body, {x: t}))
                if v is True:
                    return True
        return None

    def _by_forall(self, b):
        if not self.foralls or self.depth > 200:
            return None
        if b.op not in ('ge0', 'gt0', 'eq0', 'uf', 'eqt'):
            return None
        goal_atoms = []
        _collect(b, goal_atoms, set())
        n = 0
        for fa in self.foralls[-4:]:
            x = c.fresh('x', 'i', 'nn')
            body = c.open_(fa, x)
            pats = []
            _collect(body, pats, set())
            pats = [p for p in pats if x in p.fs]
            done = set()
            for g in goal_atoms:
                for p in pats:
                    if p.op != g.op or p.k != g.k:
                        continue
                    t = unify(p, g, x)
                    if t is None or t in done:
                        continue
                    done.add(t)
                    if not (self.decide(c.ge0(t)) is True and self.decide(c.lt(t, fa.a[0])) is True):
                        continue
                    inst = c.not_(c.subst(body, {x: t}))
                    n += 1
                    if n > 4:
                        return None
                    d0 = self.lits.get(inst)
                    if d0 is True or inst is TRUE:
                        continue
                    f = self.assume(inst)
                    if f is self:
                        continue
                    if f.bad:
                        return None
                    # avoid re-instantiating endlessly: the literal is now known
                    d = f.decide(b)
                    if d is not None:
                        return d
        return None

    def _by_cases(self, b):
        if not self.disj or self.depth > 120 or EFFORT[0] > EFFORT[1]:
            return None
        if b.op not in ('ge0', 'gt0', 'eq0', 'and', 'or', 'ex'):
            return None
        if NEST[0] > 2:
            return None
        NEST[0] += 1
        try:
            return self._by_cases2(b)
        finally:
            NEST[0] -= 1

    def _by_cases2(self, b):
        atoms = b.fs
        tried = 0
        for dj in reversed(self.disj):
            if not (dj.fs & atoms):
                continue
            # already resolved disjunction?
            if any(self.lits.get(x) is True for x in dj.alts):
                continue
            tried += 1
            if tried > 2:
                break
            res = 'none'
            for x in dj.alts:
                f = self.assume(x)
                if f.bad:
                    continue
                if f is self:
                    f = self.force(x)
                d = f.decide(b)
                if d is None or (res != 'none' and d != res):
                    res = None
                    break
                res = d
            if res == 'none':
                return None
            if res is not None:
                return res
        return None

    # ---------------------------------------------------------------
    def prove_ge(self, p):
        return self._prove(p, False)

    def prove_gt(self, p):
        if c.isint(p):
            return self._prove(c.padd(p, C(-1)), False)
        return self._prove(p, True)

    def _prove(self, p, strict):
        if c.isconst(p):
            v = c.cval(p)
            return v > 0 if strict else v >= 0
        key = (p, strict)
        r = self.memo.get(key)
        if r is not None:
            return r
        self.memo[key] = False
        old = G.facts
        G.facts = self
        try:
            r = self._prove2(p, strict)
        finally:
            G.facts = old
        self.memo[key] = r
        return r

    def _prove2(self, p, strict):
        # all monomials non negative?
        ok = True
        low = 0
        for m, cf in p.d.items():
            if m == ():
                low += cf
                continue
            s = 1 if cf > 0 else -1
            for a, e in m:
                if e % 2 == 0:
                    continue
                if not nonneg(a):
                    s = 0
                    break
            if s <= 0:
                ok = False
                break
        if ok and (low > 0 or (low == 0 and not strict)):
            return True
        if self.sub and self.needs(p):
            q = self.norm(p)
            if q is not p:
                return self._prove(q, strict)
        for m, cf in p.d.items():
            # floor(q) + r >= 0 for whole r exactly when q + r >= 0
            if cf == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'floor' and c.isint(p):
                q = c.padd(p, c.pneg(A(m[0][0])))
                if c.isint(q):
                    if self._prove(c.padd(c.padd(q, C(-1)) if strict else q, m[0][0].a[0]), False):
                        return True
                    break
        r = self._factor(p)
        if r is not None and self._prove(r, strict):
            return True
        STATS['fm'] += 1
        if fm_prove(self, p, strict):
            return True
        q = count_bound(self, p)
        return q is not None and self._prove(q, strict)


    def _factor(self, p):
        """p without a factor of known sign common to all its terms"""
        if len(p.d) < 2 or () in p.d:
            return None
        ms = [dict(m) for m in p.d]
        for a, e in list(ms[0].items()):
            if all(a in m for m in ms) and (a.op == 'inv' or any(m[a] < 0 for m in ms)):
                if a.op == 'inv':
                    if any(m[a] != 1 for m in ms):
                        continue
                    d = a.a[0]
                else:
                    if any(m[a] != e for m in ms) or e % 2 == 0:
                        continue
                    d = A(a)
                rest = c._poly({tuple(x for x in m if x[0] is not a): v for m, v in p.d.items()})
                if self.prove_gt(d):
                    return rest
                if self.prove_gt(c.pneg(d)):
                    return c.pneg(rest)
        return None


def count_bound(facts, p):
    """p with a combination of counts over one range replaced by its smallest
    value: sum(b<N: P(b)) >= N * (least P over the truth values in it)"""
    grp = {}
    for m, cf in p.d.items():
        if len(m) == 1 and m[0][1] == 1 and m[0][0].op == 'sum':
            a = m[0][0]
            if all(y.op == 'ind' for mm in a.a[1].d for y, e in mm):
                grp.setdefault(a.a[0], []).append((a, cf))
    q = p
    for n, l in grp.items():
        if len(l) < 2 or not facts.prove_ge(n):
            continue
        body = ZERO
        for a, cf in l:
            body = c.padd(body, c.pscale(a.a[1], cf))
        atoms = []
        for m in body.d:
            for y, e in m:
                if y not in atoms:
                    atoms.append(y)
        if len(atoms) > 8:
            continue
        low = None
        for bits in range(1 << len(atoms)):
            on = {y for i, y in enumerate(atoms) if bits >> i & 1}
            v = sum(cf for m, cf in body.d.items() if all(y in on for y, e in m))
            low = v if low is None else min(low, v)
        for a, cf in l:
            q = c.psub(q, c.pscale(A(a), cf))
        q = c.padd(q, c.pscale(n, low))
    return q if q is not p else None


_containsm = {}


def _contains(t, a):
    if t is a:
        return True
    if a.op == 'sym':
        return a in t.fs
    if not (a.fs <= t.fs) or a.sz > t.sz:
        return False
    key = (t, a)
    r = _containsm.get(key)
    if r is None:
        r = any(_carg(x, a) for x in t.a)
        _containsm[key] = r
    return r


def _carg(x, a):
    if x.__class__ is T:
        return _contains(x, a)
    if x.__class__ is tuple:
        return any(_carg(y, a) for y in x)
    return False


c.contains = _contains


def _collect(t, out, seen):
    if t.__class__ is tuple:
        for y in t:
            _collect(y, out, seen)
        return
    if t.__class__ is not T or t in seen:
        return
    seen.add(t)
    if t.op in ('at', 'len', 'uf'):
        out.append(t)
    for y in t.a:
        _collect(y, out, seen)


def unify(p, g, x):
    """t such that p[x:=t] is g, or None (one way, x occurs linearly)"""
    res = []

    def go(p, g):
        if p is g:
            return True
        if p.__class__ is tuple:
            return g.__class__ is tuple and len(p) == len(g) and all(go(a, b) for a, b in zip(p, g))
        if p.__class__ is not T or g.__class__ is not T:
            return p == g
        if x not in p.fs:
            return False
        if p.op == 'P' and g.op == 'P':
            cf = p.d.get(((x, 1),), 0)
            if cf not in (1, -1):
                # descend when a single atom
                if len(p.d) == 1 and len(g.d) == 1:
                    (m1, c1), = p.d.items()
                    (m2, c2), = g.d.items()
                    if c1 == c2 and len(m1) == len(m2) == 1 and m1[0][1] == m2[0][1]:
                        return go(m1[0][0], m2[0][0])
                return False
            rest = c.psub(p, c.pscale(A(x), cf))
            if x in rest.fs:
                return False
            t = c.pscale(c.psub(g, rest), cf)
            if res and res[0] is not t:
                return False
            if not res:
                res.append(t)
            return True
        if p is x:
            return False
        if p.op != g.op or len(p.a) != len(g.a):
            return False
        return all(go(a, b) for a, b in zip(p.a, g.a))
    if go(p, g) and res:
        # confirm
        if c.subst(p, {x: res[0]}) in (g, A(g) if g.k in ('i', 'r') and g.op != 'P' else g):
            return res[0]
    return None


_nn = {}


def nonneg(a):
    r = _nn.get(a)
    if r is None:
        r = _nonneg(a)
        _nn[a] = r
    return r


def _nonneg(a):
    op = a.op
    if op == 'sym':
        return 'nn' in a.a[1:] or a.a[0] == 'INF'
    if op in ('len', 'ind', 'abs', 'sqrt', 'first'):
        return True
    if op == 'uf':
        return a.a[0].endswith('!nn')
    if op in ('sum', 'fmin', 'fmax'):
        b = a.a[1]
        return all(cf > 0 and all(nonneg(x) or e % 2 == 0 for x, e in m) for m, cf in b.d.items())
    if op in ('idiv', 'mod'):
        return all(q.op == 'P' and all(cf > 0 and all(nonneg(x) for x, e in m) for m, cf in q.d.items()) for q in a.a)
    if op == 'floor':
        return all(cf > 0 and all(nonneg(x) or e % 2 == 0 for x, e in m) for m, cf in a.a[0].d.items())
    if op == 'at':
        s = a.a[0]
        return s.op == 'sym' and 'nn' in s.a
    if op == 'bv':
        return True
    return False


def intrinsic(a):
    """list of (poly, strict) facts about an atom"""
    op = a.op
    x = A(a)
    if op == 'ind':
        v = None
        if G.facts is not None:
            v = G.facts.lits.get(a.a[0])
            if v is None and NEST[2] < 1 and a.a[0].sz < 60 and a.a[0].op in ('ge0', 'gt0'):
                NEST[2] += 1
                try:
                    v = G.facts.decide(a.a[0])
                finally:
                    NEST[2] -= 1
        if v is True:
            return [(c.psub(x, ONE), False), (c.psub(ONE, x), False)]
        if v is False:
            return [(x, False), (c.pneg(x), False)]
        return [(x, False), (c.psub(ONE, x), False)]
    out = []
    if nonneg(a):
        out.append((x, False))
    if op == 'mod':
        p, q = a.a
        if G.facts.prove_gt(q):
            if G.facts.prove_ge(p):
                out.append((x, False))
            out.append((c.padd(c.psub(q, x), C(-1)), False))
        if not c.isconst(q):
            d = c.psub(c.psub(p, c.pmul(q, A(c._mk('idiv', 'i', p, q)))), x)
            out.append((d, False))
            out.append((c.pneg(d), False))
    elif op == 'idiv':
        p, q = a.a
        if G.facts.prove_gt(q) and G.facts.prove_ge(p):
            out.append((x, False))
            qx = c.pmul(q, x)
            out.append((c.psub(p, qx), False))
            out.append((c.psub(c.padd(qx, q), c.padd(p, ONE)), False))
    elif op == 'floor':
        p = a.a[0]
        out.append((c.psub(p, x), False))
        out.append((c.psub(c.padd(x, ONE), p), True))
    elif op == 'trunc':
        p = a.a[0]
        if G.facts.prove_ge(p):
            out.append((c.psub(p, x), False))
            out.append((c.psub(c.padd(x, ONE), p), True))
            out.append((x, False))
    elif op == 'abs':
        p = a.a[0]
        out.append((c.psub(x, p), False))
        out.append((c.padd(x, p), False))
    elif op == 'min':
        for y in a.a[0]:
            out.append((c.psub(y, x), False))
    elif op == 'max':
        for y in a.a[0]:
            out.append((c.psub(x, y), False))
    elif op == 'first':
        out.append((c.psub(a.a[0], x), False))
    elif op == 'sum':
        b = a.a[1]
        if len(b.d) == 1:
            (m, cf), = b.d.items()
            if cf == 1 and all(y.op == 'ind' for y, e in m):
                out.append((c.psub(a.a[0], x), False))
    elif op == 'at':
        s = a.a[0]
        bd = _comp_bounds(s)
        if bd:
            lo, hi = bd
            if lo is not None:
                out.append((c.psub(x, lo), False))
            if hi is not None:
                out.append((c.psub(hi, x), False))
    elif op == 'inv':
        pass
    return out


_cb = {}


def _comp_bounds(s):
    """bounds of the elements of an int selection comp(N, x->ite(c,[x+k],[]))"""
    if s in _cb:
        return _cb[s]
    r = None
    if s.op == 'comp' and s.k == 'si':
        x = c.fresh('x', 'i', 'nn')
        b = c.open_(s, x)
        es = []

        def leaves(t):
            if t.op == 'ite':
                return leaves(t.a[1]) and leaves(t.a[2])
            if t.op == 'elems':
                es.extend(t.a[0])
                return True
            return False
        if leaves(b) and es:
            ok = True
            for e in es:
                rest = c.psub(e, A(x))
                if x in rest.fs or not c.isconst(rest):
                    ok = False
            if ok:
                lo = min(c.cval(c.psub(e, A(x))) for e in es)
                hi = max(c.cval(c.psub(e, A(x))) for e in es)
                r = (C(lo), c.padd(s.a[0], C(hi - 1)))
    _cb[s] = r
    return r


def _tighten(d, strict, isint):
    """integer normalisation of a constraint dict sum >= 0"""
    if isint:
        if strict:
            d[()] = d.get((), 0) - 1
            strict = False
        g = 0
        for m, v in d.items():
            if m != ():
                g = gcd(g, v)
        if g > 1:
            for m in list(d):
                if m != ():
                    d[m] //= g
            if () in d:
                d[()] = floor(Fraction(d[()], g))
    return d, strict


def _lin(p, strict):
    d = {}
    den = 1
    isint = True
    for m, v in p.d.items():
        if v.__class__ is Fraction:
            den = den * v.denominator // gcd(den, v.denominator)
        if isint:
            for a, e in m:
                if a.k != 'i' or e < 0:
                    isint = False
                    break
    for m, v in p.d.items():
        d[m] = int(v * den)
    d, strict = _tighten(d, strict, isint)
    return d, strict, isint


def fm_prove(facts, p, strict):
    EFFORT[0] += 1
    # negated goal: -p > 0 (for goal p>=0) or -p >= 0 (for goal p>0)
    neg = c.pneg(p)
    goal = _lin(neg, not strict)
    cons = [goal]
    polys = [(neg, not strict)]
    atoms = set()
    for m in p.d:
        for a, e in m:
            atoms.add(a)
    frontier = set(atoms)
    used = set()
    rounds = 0
    monos = set(m for m in p.d if m != ())
    while frontier and rounds < 4 and len(cons) < 70:
        rounds += 1
        new = set()
        for a in list(frontier):
            for q, s in intrinsic(a):
                key = (q, s)
                if key in used:
                    continue
                used.add(key)
                polys.append(key)
                cons.append(_lin(q, s))
                for m in q.d:
                    for b, e in m:
                        if b not in atoms:
                            new.add(b)
        for q, s in facts.ges:
            key = (q, s)
            if key in used:
                continue
            hit = False
            for m in q.d:
                for b, e in m:
                    if b in frontier:
                        hit = True
                        break
                if hit:
                    break
            if hit:
                used.add(key)
                polys.append(key)
                cons.append(_lin(q, s))
                for m in q.d:
                    for b, e in m:
                        if b not in atoms:
                            new.add(b)
        atoms |= new
        frontier = new
    if fm_infeasible(cons):
        return True
    # non linear: products of facts
    nl = set()
    for q, s in polys:
        for m in q.d:
            if len(m) > 1 or (m and m[0][1] > 1):
                nl.add(m)
    if nl and len(polys) > 1:
        prods = []
        seen = set()
        want = set()
        for m in nl:
            for a, e in m:
                want.add(a)
        lin = [(q, s) for q, s in polys[1:] if len(q.d) <= 5 and any(b in want for m in q.d for b, e in m)
               and all(len(m) <= 1 for m in q.d)]
        lin = lin[:24]
        for i in range(len(lin)):
            for j in range(i, len(lin)):
                q1, s1 = lin[i]
                q2, s2 = lin[j]
                pr = c.pmul(q1, q2)
                if pr in seen or not pr.d:
                    continue
                seen.add(pr)
                if any(m in nl for m in pr.d):
                    # all degree-2 monomials should be wanted or few extra
                    extra = [m for m in pr.d if len(m) > 1 and m not in nl]
                    if len(extra) <= 1:
                        prods.append((pr, s1 and s2))
        if prods:
            cons2 = cons + [_lin(q, s) for q, s in prods[:80]]
            if fm_infeasible(cons2):
                return True
            # degree 3: multiply products once more when wanted
            deg3 = [m for m in nl if sum(e for a, e in m) >= 3]
            if deg3:
                pr3 = []
                for q1, s1 in prods[:30]:
                    for q2, s2 in lin:
                        q = c.pmul(q1, q2)
                        if any(m in nl for m in q.d):
                            extra = [m for m in q.d if sum(e for a, e in m) >= 3 and m not in nl]
                            if len(extra) <= 1:
                                pr3.append((q, s1 and s2))
                if pr3 and fm_infeasible(cons2 + [_lin(q, s) for q, s in pr3[:60]]):
                    return True
    return False


def fm_infeasible(cons):
    """cons: list of (dict mono->int, strict, isint): sum >= 0 / > 0"""
    work = []
    seen = set()
    for d, s, i in cons:
        d = {m: v for m, v in d.items() if v}
        key = (frozenset(d.items()), s)
        if key in seen:
            continue
        seen.add(key)
        r = _trivial(d, s)
        if r is False:
            return True
        if r is True:
            continue
        work.append((d, s, i))
    # keep, for constraints with the same linear part, the tightest
    steps = 0
    while work:
        # choose variable
        cnt = {}
        for d, s, i in work:
            for m, v in d.items():
                if m != ():
                    x = cnt.setdefault(m, [0, 0])
                    x[0 if v > 0 else 1] += 1
        if not cnt:
            return False
        var = min(cnt, key=lambda m: (cnt[m][0] * cnt[m][1] - cnt[m][0] - cnt[m][1]))
        pos = [w for w in work if w[0].get(var, 0) > 0]
        neg = [w for w in work if w[0].get(var, 0) < 0]
        rest = [w for w in work if not w[0].get(var, 0)]
        if len(pos) * len(neg) > 600 or steps > 60:
            return False
        steps += 1
        new = {}
        for w in rest:
            _keep(new, w)
        for d1, s1, i1 in pos:
            a = d1[var]
            for d2, s2, i2 in neg:
                b = -d2[var]
                g = gcd(a, b)
                f1, f2 = b // g, a // g
                d = {}
                for m, v in d1.items():
                    d[m] = v * f1
                for m, v in d2.items():
                    x = d.get(m, 0) + v * f2
                    if x:
                        d[m] = x
                    else:
                        d.pop(m, None)
                i = i1 and i2
                s = s1 or s2
                # keep numbers small
                g = 0
                for m, v in d.items():
                    if m != () or not i:
                        g = gcd(g, v)
                if g > 1 and not i:
                    for m in d:
                        d[m] //= g
                d, s = _tighten(d, s, i) if i else (d, s)
                d = {m: v for m, v in d.items() if v}
                r = _trivial(d, s)
                if r is False:
                    return True
                if r is True:
                    continue
                _keep(new, (d, s, i))
        work = list(new.values())
        if len(work) > 500:
            return False
    return False


def _keep(new, w):
    d, s, i = w
    key = frozenset((m, v) for m, v in d.items() if m != ())
    o = new.get(key)
    if o is None:
        new[key] = w
    else:
        c0, c1 = o[0].get((), 0), d.get((), 0)
        if c1 < c0 or (c1 == c0 and s and not o[1]):
            new[key] = w


def _trivial(d, s):
    """True: always holds, False: never, None: depends"""
    if not d:
        return False if s else True
    if len(d) == 1 and () in d:
        v = d[()]
        return v > 0 if s else v >= 0
    return None
