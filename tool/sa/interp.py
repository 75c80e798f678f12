"""Abstract interpreter over the exported syntax trees.

One forward pass per function body: states are joined at control flow merges
(value = case distinction on the branch condition), loops are summarised by
abstract iterations over symbolic loop entry values (induction variables,
appends, overwrites, folds, first-exit index), calls to functions of the
repository are analysed in the context of the call.
"""
import os, sys
from fractions import Fraction
from . import core as c
from .core import A, C, T, TRUE, FALSE, ZERO, ONE, G, _mk, ge0, gt0, eq0, lt, le, eq, not_, and_, or_, ite, ind
from .facts import Facts


DEBUG = bool(os.environ.get('SA_DEBUG'))


def dbg(*a):
    print(*a, file=sys.stderr)


class Dead(Exception):
    """no normal continuation"""


class Unsupported(Exception):
    pass


def _repo():
    from . import prog
    return prog.REPO


class Stateful(Unsupported):
    """a variable that keeps a value between calls and has no arbitrary value here"""


NULL = _mk('null', 'o')
UNIT = _mk('unit', 'o')


def ptr(root, projs=()):
    return _mk('ptr', 'o', root, tuple(projs))


def top(why):
    return _mk('top', 'o', why)


def numtop(why, k='r'):
    return A(_mk('top', k, why))


def kindtop(k, why):
    if k in ('i', 'r'):
        return numtop(why, k)
    return _mk('top', k, why)


def istop(v):
    return v.op == 'top' or (v.op == 'P' and any(a.op == 'top' for a in c.atoms_of(v)))


def rec(cls, fields):
    return _mk('rec', 'o', cls, tuple(fields))


def recget(v, name):
    return c.wrapnum(c.fld(v, name, 'o'))


def recset(v, name, x):
    return _mk('rec', 'o', v.a[0], tuple((n, x if n == name else y) for n, y in v.a[1]))


def text(s):
    return c.elems('si', [C(ord(ch)) for ch in s])


class State:
    __slots__ = ('store', 'facts')

    def __init__(self, store, facts):
        self.store = store
        self.facts = facts

    def copy(self):
        return State(dict(self.store), self.facts)

    def fork(self, cond):
        f = self.facts.assume(cond)
        return State(dict(self.store), f)


def lits_since(f, base):
    out = []
    while f is not base and f is not None:
        out.append(f.lit)
        f = f.parent
    out.reverse()
    return out


def lca(f1, f2):
    while f1 is not f2:
        if f1.depth >= f2.depth:
            f1 = f1.parent
        else:
            f2 = f2.parent
    return f1


class Frame:
    __slots__ = ('fn', 'tu', 'env', 'this', 'rets', 'ret', 'locals', 'brk', 'cont', 'capmap', 'depth', 'file', 'thiscls')

    def __init__(self, fn, tu, depth):
        self.fn = fn
        self.tu = tu
        self.env = {}
        self.this = None
        self.rets = []
        self.ret = None
        self.locals = []
        self.brk = []
        self.cont = []
        self.depth = depth
        self.file = fn.file if fn else ''


class Event:
    __slots__ = ('kind', 'facts', 'cond', 'file', 'line', 'fn', 'info', 'lost')

    def __init__(self, kind, facts, cond, file, line, fn, info, lost=False):
        self.lost = lost
        self.kind = kind
        self.facts = facts
        self.cond = cond
        self.file = file
        self.line = line
        self.fn = fn
        self.info = info


EXC = {'std::invalid_argument': 'std::logic_error', 'std::out_of_range': 'std::logic_error',
       'std::length_error': 'std::logic_error', 'std::domain_error': 'std::logic_error',
       'std::logic_error': 'std::exception', 'std::runtime_error': 'std::exception',
       'std::overflow_error': 'std::runtime_error', 'std::underflow_error': 'std::runtime_error',
       'std::range_error': 'std::runtime_error', 'std::bad_alloc': 'std::exception',
       'std::bad_function_call': 'std::exception', 'std::bad_cast': 'std::exception',
       'std::bad_optional_access': 'std::exception', 'std::future_error': 'std::logic_error',
       'std::system_error': 'std::runtime_error', 'std::bad_variant_access': 'std::exception'}

MAXDEPTH = 60


class Interp:
    def __init__(self, prog):
        self.prog = prog
        self.nroot = 0
        self.dtors = {}
        self.throws = [[]]
        self.events = []
        self.rec = True
        self.lost = False
        self.line = 0
        self.fr = None
        self.rootinfo = {}
        self.intr = {}
        self.globals = {}
        self.visited = set()      # functions of the repository analysed
        self.sites = 0            # memory accesses / checks decided
        self.steps = 0
        self.maxsteps = 3000000
        self.unsupported = []
        self.stateful = {}      # variables that keep values between calls, and how
        from . import stdm
        self.std = stdm
        self.trace_root = self.newroot('trace')

    # -- roots ------------------------------------------------------------
    def newroot(self, info=''):
        self.nroot += 1
        self.rootinfo[self.nroot] = info
        return self.nroot

    def initial(self):
        f = Facts()
        st = State({}, f)
        st.store[self.trace_root] = c.empty('so')
        return st

    def alloc(self, st, v, info='', fr=None):
        r = self.newroot(info)
        st.store[r] = v
        if fr is not None:
            fr.locals.append(r)
        return ptr(r)

    # -- events -----------------------------------------------------------
    def newheap(self, st, v):
        return self.alloc(st, v, 'heap').a[0]

    def event(self, kind, st, cond, info=''):
        """cond: condition under which the event is bad"""
        if not self.rec:
            return
        fr = self.fr
        self.events.append(Event(kind, st.facts, cond, fr.file if fr else '', self.line,
                                 str(fr.fn) if fr else '', info, self.lost))

    def unsup(self, what):
        if self.rec:
            self.unsupported.append('%s (%s:%s)' % (what, self.fr.file if self.fr else '', self.line))

    def decide(self, st, b):
        G.facts = st.facts
        return st.facts.decide(b)

    def require(self, st, ok, kind, info=''):
        """ok must hold here (memory safety and the like)"""
        if ok is TRUE:
            self.sites += self.rec
            return
        if not self.rec:
            # assume silently
            return
        self.sites += 1
        d = st.facts.decide(ok)
        if d is True:
            return
        self.event(kind, st, not_(ok), info)

    # -- memory -----------------------------------------------------------
    def read(self, st, p):
        if p.op == 'ptr':
            v = st.store.get(p.a[0])
            if v is None:
                self.event('dangling', st, TRUE, self.rootinfo.get(p.a[0], ''))
                return top('dangling')
            G.facts = st.facts
            for pr in p.a[1]:
                v = self.proj(v, pr)
            return v
        if p.op == 'ite':
            d = self.decide(st, p.a[0])
            if d is True:
                return self.read(st, p.a[1])
            if d is False:
                return self.read(st, p.a[2])
            x = self.read(st, p.a[1])
            y = self.read(st, p.a[2])
            G.facts = st.facts
            return ite(p.a[0], x, y)
        if p is NULL:
            self.event('nullderef', st, TRUE)
            return top('null')
        return top('deref ' + p.op)

    def proj(self, v, pr):
        if pr[0] == 'f':
            if v.op == 'rec' or v.op == 'ite':
                return recget(v, pr[1])
            if v.op == 'top':
                return v
            return c.wrapnum(c.fld(v, pr[1], 'o'))
        if v.k[0] == 's' or v.op in ('elems',):
            return c.at(v, pr[1])
        if v.op == 'top':
            return v
        if v.op == 'rec' and pr[0] == 'i':
            return top('index of record')
        return top('index of ' + v.op)

    def update(self, v, projs, x):
        if not projs:
            return x
        pr = projs[0]
        if v.op == 'top':
            return v
        if pr[0] == 'f':
            if v.op == 'rec':
                for n, y in v.a[1]:
                    if n == pr[1]:
                        return recset(v, n, self.update(y, projs[1:], x))
                return _mk('rec', 'o', v.a[0], v.a[1] + ((pr[1], self.update(top('field'), projs[1:], x)),))
            if v.op == 'ite':
                return ite(v.a[0], self.update(v.a[1], projs, x), self.update(v.a[2], projs, x))
            return top('update of ' + v.op)
        if v.k[0] != 's':
            return top('indexed update')
        i = pr[1]
        if len(projs) > 1:
            x = self.update(c.at(v, i), projs[1:], x)
        if x.op == 'top':
            return _mk('top', v.k, x.a[0])
        return c.upd(v, i, c.elems(v.k, [x]))

    def write(self, st, p, x):
        if p.op == 'ptr':
            r = p.a[0]
            if r not in st.store:
                self.event('dangling', st, TRUE, self.rootinfo.get(r, ''))
                return
            G.facts = st.facts
            st.store[r] = self.update(st.store[r], p.a[1], x)
            return
        if p.op == 'ite':
            d = self.decide(st, p.a[0])
            if d is not False:
                if d is True:
                    return self.write(st, p.a[1], x)
                o = self.read(st, p.a[1])
                self.write(st, p.a[1], ite(p.a[0], x, o))
            if d is False:
                return self.write(st, p.a[2], x)
            o = self.read(st, p.a[2])
            self.write(st, p.a[2], ite(p.a[0], o, x))
            return
        if p is NULL:
            self.event('nullderef', st, TRUE)
            return
        # unknown target: nothing is known any more
        self.unsup('write through unknown pointer')
        for r in st.store:
            st.store[r] = self.havoc(st.store[r], 'unknown write')

    def havoc(self, v, why):
        if v.op == 'rec':
            return _mk('rec', 'o', v.a[0], tuple((n, self.havoc(y, why)) for n, y in v.a[1]))
        if v.op == 'P':
            return numtop(why, 'i' if c.isint(v) else 'r')
        return _mk('top', v.k, why)

    def pproj(self, p, pr):
        """pointer to a part"""
        if p.op == 'ptr':
            return ptr(p.a[0], p.a[1] + (pr,))
        if p.op == 'ite':
            return ite(p.a[0], self.pproj(p.a[1], pr), self.pproj(p.a[2], pr))
        return p

    # -- joins ------------------------------------------------------------
    def mergeval(self, cond, v1, v2, base):
        if v1 is v2:
            return v1
        if v1 is None or v2 is None:
            return v1 if v2 is None else v2
        # equal under the branch condition
        f1 = base.assume(cond)
        if f1.sub is not base.sub and f1.norm(v2) is v1:
            return v2
        f2 = base.assume(not_(cond))
        if f2.sub is not base.sub and f2.norm(v1) is v2:
            return v1
        G.facts = base
        if v1.op == 'rec' and v2.op == 'rec' and v1.a[0] == v2.a[0] and len(v1.a[1]) == len(v2.a[1]):
            if all(a[0] == b[0] for a, b in zip(v1.a[1], v2.a[1])):
                return _mk('rec', 'o', v1.a[0],
                           tuple((a[0], self.mergeval(cond, a[1], b[1], base)) for a, b in zip(v1.a[1], v2.a[1])))
        return ite(cond, v1, v2)

    def split(self, s1, s2):
        base = lca(s1.facts, s2.facts)
        l1 = lits_since(s1.facts, base)
        l2 = lits_since(s2.facts, base)
        if not l1 and not l2:
            return base, TRUE, base
        a1 = and_(*l1)
        a2 = and_(*l2)
        if l1 and l2 and l1[0] is not_(l2[0]):
            cond = l1[0]
        elif l1 and (not l2 or len(l1) <= len(l2)):
            cond = a1
        else:
            cond = not_(a2)
        G.facts = base
        return base, cond, base.assume(or_(a1, a2))

    def merge(self, s1, s2):
        if s1 is None:
            return s2
        if s2 is None:
            return s1
        base, cond, nf = self.split(s1, s2)
        st = State({}, nf)
        o = st.store
        b2 = s2.store
        for r, v1 in s1.store.items():
            v2 = b2.get(r)
            if v1 is v2 or v2 is None:
                o[r] = v1
            else:
                o[r] = self.mergeval(cond, v1, v2, base)
        for r, v2 in b2.items():
            if r not in o:
                o[r] = v2
        return st

    def merge_vals(self, outs):
        """[(state, value)] -> (state, value)"""
        outs = [(s, v) for s, v in outs if s is not None and not s.facts.bad]
        if not outs:
            return None, None
        s, v = outs[-1]
        for s1, v1 in reversed(outs[:-1]):
            base, cond, nf = self.split(s1, s)
            m = self.merge(s1, s)
            if v is None or v1 is None:
                v = v1 if v is None else v
            else:
                v = self.mergeval(cond, v1, v, base)
            s = m
        return s, v

    # -- functions ----------------------------------------------------------
    def call_fn(self, fn, st, this, args, depth=None, env=None):
        """run a function body; args: list of pointers (reference parameters)
        or values.  Updates st in place; returns the value (or pointer for a
        reference result)."""
        old = self.fr
        oldline = self.line
        d = (old.depth + 1) if old else 0
        if d > MAXDEPTH:
            raise Unsupported('recursion')
        fr = Frame(fn, fn.tu, d)
        fr.this = this
        if env:
            fr.env.update(env)
        if '/repo' in fn.file or fn.file.startswith(self.repo_root()):
            self.visited.add((fn.decl['qname'], fn.file, fn.j.get('line')))
        tu = fn.tu
        params = fn.j['params']
        for i, p in enumerate(params):
            t = tu.type(p['t'])
            if i < len(args):
                a = args[i]
            elif p.get('default'):
                prev = self.fr
                self.fr = fr
                try:
                    a = self.coerce(self.ev(p['default'], st), tu, p['t']) if not t.get('ref') else self.ev(p['default'], st)
                finally:
                    self.fr = prev
            else:
                break
            if t.get('ref'):
                if a.op in ('ptr',) or (a.op == 'ite' and a.k == 'o' and self._ptrlike(a)):
                    fr.env[p['id']] = a
                else:
                    fr.env[p['id']] = self.alloc(st, a, 'temporary', fr)
            else:
                fr.env[p['id']] = self.alloc(st, a, 'param ' + p['name'], fr)
        # packs: several parameters may carry the same name, ids differ
        self.fr = fr
        try:
            if fn.decl.get('ctor'):
                self.ctor_inits(fn, st, fr)
            body = fn.j.get('body')
            end = st.copy()
            if body is not None:
                end = self.ex(body, end)
            rets = list(fr.rets)
            if end is not None:
                rets.append((end, UNIT))
            s, v = self.merge_vals(rets)
        finally:
            self.fr = old
            self.line = oldline
        if s is None:
            raise Dead()
        for r in fr.locals:
            s.store.pop(r, None)
        st.store = s.store
        st.facts = s.facts
        G.facts = st.facts
        return v

    def _ptrlike(self, a):
        while a.op == 'ite':
            a = a.a[1]
        return a.op in ('ptr', 'null')

    def repo_root(self):
        from . import prog
        return prog.REPO

    def ctor_inits(self, fn, st, fr):
        tu = fn.tu
        for it in fn.j.get('inits') or []:
            e = it.get('e')
            if it.get('delegating') or 'base' in it:
                if e is None:
                    continue
                if e['k'] == 'construct':
                    self.construct_at(e, st, fr.this)
                continue
            p = self.pproj(fr.this, ('f', it['field']))
            if e is None:
                continue
            ft = tu.type(it['ft'])
            if ft.get('ref'):
                v = self.lv(e, st)
            else:
                v = self.ev(e, st)
            self.write(st, p, self.coerce(v, tu, it['ft']))

    def construct_at(self, e, st, this):
        """run the constructor of a construct node on an existing object"""
        tu = self.fr.tu
        f = self.prog.lookup(tu, e['fn'])
        d = tu.decls[e['fn']]
        if f is None:
            sp = d.get('special')
            return
        args = self.args(f, e['c'], st)
        self.call_fn(f, st, this, args)

    def default_rec(self, tu, recid, st, dyn=None):
        """object with default member values (not constructed)"""
        fields = []
        self._fields(tu, recid, fields)
        return rec(dyn or self.prog.clsname(tu, recid), fields)

    def _fields(self, tu, recid, out):
        d = tu.decls.get(recid)
        if d is None or 'fields' not in d:
            return
        for b in d.get('bases', []):
            bt = tu.type(b)
            if bt.get('recid') is not None:
                self._fields(tu, bt['recid'], out)
        for f in d['fields']:
            out.append((f['name'], self.default_of(tu, f['t'], uninit=True)))

    def default_of(self, tu, tid, uninit=False):
        t = tu.type(tid)
        k = tu.kind(tid)
        if k == 'b':
            return _mk('top', 'b', 'uninit') if uninit else FALSE
        if k in ('i', 'r'):
            return numtop('uninit', k) if uninit else ZERO
        if t['k'] == 'carray':
            n = t.get('n')
            ev = self.default_of(tu, t['elem'], uninit)
            return c.elems(k, [ev] * n)
        if t['k'] == 'ptr':
            return top('uninit') if uninit else NULL
        if t['k'] == 'record':
            r = t.get('rec')
            if r == 'std::array':
                n = t['targs'][1]['int'] if isinstance(t['targs'][1], dict) else 0
                return c.elems(k, [self.default_of(tu, t['targs'][0], uninit)] * n)
            if k[0] == 's':
                return c.empty(k)
            v = self.std.default_value(self, tu, t)
            if v is not None:
                return v
            if t.get('recid') is not None:
                return self.default_rec(tu, t['recid'], None)
        return top('uninit')

    def construct(self, e, st):
        """value of a construct node"""
        tu = self.fr.tu
        t = tu.type(e['t'])
        d = tu.decls.get(e.get('fn')) if e.get('fn') is not None else None
        args = e['c']
        if e.get('elid') and args:
            return self.ev(args[0], st)
        if d is not None and d.get('sys'):
            return self.std.construct(self, e, st, t, d)
        if t['k'] == 'carray':
            n = t['n']
            et = tu.type(t['elem'])
            v = self.default_of(tu, t['elem'])
            return c.elems(tu.kind(e['t']), [v] * n)
        sp = (d or {}).get('special')
        f = self.prog.lookup(tu, e['fn']) if d is not None else None
        if sp in ('copyctor', 'movector') and (f is None or (d.get('defaulted') or not f.j.get('body')) and not f.j.get('inits')
                                               or d.get('defaulted') or d.get('implicit')):
            return self.ev(args[0], st)
        obj = self.default_rec(tu, t['recid'], st)
        if f is None:
            if sp == 'defaultctor' or not args:
                return self.init_defaults(tu, t['recid'], obj, st)
            self.unsup('constructor ' + str(d and d['qname']))
            return top('ctor')
        avals = self.args(f, args, st)
        r = self.alloc(st, obj, 'temporary')
        self.call_fn(f, st, r, avals)
        v = self.read(st, r)
        st.store.pop(r.a[0], None)
        return v

    def init_defaults(self, tu, recid, obj, st):
        d = tu.decls.get(recid)
        for b in d.get('bases', []):
            bt = tu.type(b)
            if bt.get('recid') is not None and bt['recid'] in tu.decls:
                obj = self.init_defaults(tu, bt['recid'], obj, st)
        for f in d.get('fields', []):
            if f.get('init'):
                v = self.coerce(self.ev(f['init'], st), tu, f['t'])
                obj = recset(obj, f['name'], v)
            else:
                t = tu.type(f['t'])
                if t['k'] == 'record':
                    obj = recset(obj, f['name'], self.default_of(tu, f['t']))
        return obj

    def args(self, f, es, st):
        """evaluate arguments for the parameters of function f"""
        tu = self.fr.tu
        ps = f.j['params'] if f is not None else None
        out = []
        for i, e in enumerate(es):
            if ps is not None and i < len(ps):
                t = f.tu.type(ps[i]['t'])
                if t.get('ref'):
                    out.append(self.lv(e, st))
                else:
                    out.append(self.coerce(self.ev(e, st), f.tu, ps[i]['t']))
            else:
                out.append(self.ev(e, st))
        return out

    def coerce(self, v, tu, tid):
        """adjust the representation to the target type"""
        k = tu.kind(tid)
        if k == 'b' and v.op == 'P':
            return not_(eq0(v))
        if k in ('i', 'r') and v.k == 'b':
            return ind(v)
        if k[0] == 's' and v.k[0] == 's' and v.k != k and c.isempty(v):
            return c.empty(k)
        return v

    # -- statements -------------------------------------------------------
    def ex(self, s, st):
        """execute statement; returns the state after it or None"""
        if s is None or st is None:
            return st
        if st.facts.bad:
            return None
        self.steps += 1
        if self.steps > self.maxsteps:
            raise c.Budget('steps')
        k = s['k']
        if 'l' in s:
            self.line = s['l']
        G.facts = st.facts
        try:
            return getattr(self, 'x_' + k)(s, st)
        except Dead:
            return None

    def x_block(self, s, st):
        fr = self.fr
        dying = [v for x in s['c'] if x['k'] == 'decl' for v in x['c']
                 if v['k'] == 'var' and not v.get('static') and self.has_dtor(fr.tu, v['t'])]
        if not dying:
            for x in s['c']:
                st = self.ex(x, st)
                if st is None:
                    return None
            return st
        # objects with a destructor: it runs wherever the block is left
        n0, b0, k0, t0 = len(fr.rets), len(fr.brk), len(fr.cont), len(self.throws[-1])
        names = {v['d'] for v in dying}
        live = []
        for x in s['c']:
            marks = (len(fr.rets), len(fr.brk), len(fr.cont), len(self.throws[-1]))
            st = self.ex(x, st)
            leaving = [z[0] for z in fr.rets[marks[0]:]] + list(fr.brk[marks[1]:]) + list(fr.cont[marks[2]:]) + \
                [z[0] for z in self.throws[-1][marks[3]:]]
            ret = x['k'] == 'return' and x.get('e')
            kept = ret['d'] if ret and ret['k'] == 'ref' else None
            if ret and ret['k'] == 'construct' and len(ret['c']) == 1 and ret['c'][0]['k'] == 'ref':
                kept = ret['c'][0]['d']
            for z in leaving:
                for d, t in reversed(live):
                    if d != kept:
                        self.destroy(z, fr.env.get(d), fr.tu, t)
            if st is None:
                return None
            if x['k'] == 'decl':
                live += [(v['d'], v['t']) for v in x['c'] if v['k'] == 'var' and v['d'] in names]
        for d, t in reversed(live):
            self.destroy(st, fr.env.get(d), fr.tu, t)
        return st

    def has_dtor(self, tu, tid, seen=None):
        """does destroying a value of this type run a destructor of the library?"""
        t = tu.type(tid)
        if t.get('ref') or t['k'] != 'record':
            return False
        key = (tu.idx, tid)
        r = self.dtors.get(key)
        if r is None:
            self.dtors[key] = False
            r = self.dtors[key] = self._has_dtor(tu, t)
        return r

    def _has_dtor(self, tu, t):
        r = t.get('rec') or ''
        if r in ('std::unique_ptr', 'std::shared_ptr', 'std::vector', 'std::array', 'std::optional', 'std::map',
                 'std::unordered_map', 'std::pair', 'std::tuple'):
            for a in t.get('targs') or []:
                if not isinstance(a, int):
                    continue
                if self.has_dtor(tu, a) or (r in ('std::unique_ptr', 'std::shared_ptr') and self.pointee_dtor(tu, a)):
                    return True
            return False
        if t.get('recid') is None:
            return False
        d = tu.decls.get(t['recid'])
        if d is None or 'fields' not in d:
            return False
        if self.dtor_of(tu, t['recid']) is not None:
            return True
        return any(self.has_dtor(tu, f['t']) for f in d['fields']) or \
            any(self.has_dtor(tu, b) for b in d.get('bases', []))

    def pointee_dtor(self, tu, tid):
        t = tu.type(tid)
        d = tu.decls.get(t.get('recid')) if t.get('recid') is not None else None
        return bool(d and d.get('polymorphic')) or self.has_dtor(tu, tid)

    def dtor_of(self, tu, recid):
        """the destructor a class itself writes, with a body"""
        d = tu.decls.get(recid)
        for m in (d or {}).get('methods', []):
            md = tu.decls.get(m)
            if md and md.get('dtor') and not md.get('defaulted') and not md.get('implicit'):
                f = self.prog.lookup(tu, m)
                if f is not None and f.j.get('body') is not None:
                    return f
        return None

    def destroy(self, st, p, tu, tid):
        """end of an object's life in state st (only what the library writes)"""
        t = tu.type(tid)
        if p is None or p.op != 'ptr' or p.a[0] not in st.store:
            return
        old = G.facts
        G.facts = st.facts
        try:
            self.destroy_rec(st, p, tu, t)
        finally:
            G.facts = old

    def destroy_rec(self, st, p, tu, t):
        r = t.get('rec') or ''
        if t.get('recid') is None or r.startswith('std::'):
            raise Unsupported('destruction of ' + r)
        obj = self.read(st, p)
        tu0, recid = tu, t['recid']
        d = tu.decls.get(recid)
        if obj.op == 'rec' and obj.a[0] in self.prog.records and d and d.get('virtualdtor'):
            tu0, recid = self.prog.records[obj.a[0]]
        self.destroy_cls(st, p, tu0, recid)

    def destroy_cls(self, st, p, tu, recid):
        d = tu.decls.get(recid)
        if d is None or 'fields' not in d:
            return
        f = self.dtor_of(tu, recid)
        if f is not None:
            self.call_fn(f, st, p, [])
        for x in reversed(d['fields']):
            if self.has_dtor(tu, x['t']):
                self.destroy_rec(st, self.pproj(p, ('f', x['name'])), tu, tu.type(x['t']))
        for b in d.get('bases', []):
            bt = tu.type(b)
            if self.has_dtor(tu, b):
                self.destroy_cls(st, p, tu, bt['recid'])

    def x_null(self, s, st):
        return st

    def x_other(self, s, st):
        self.unsup('statement ' + s.get('cls', ''))
        raise Unsupported('statement ' + s.get('cls', ''))

    def x_expr(self, s, st):
        self.ev(s['e'], st, discard=True)
        return st

    def x_decl(self, s, st):
        for v in s['c']:
            self.declare(v, st)
        return st

    def declare(self, v, st):
        fr = self.fr
        tu = fr.tu
        if v['k'] != 'var':
            return
        t = tu.type(v['t'])
        if v.get('static'):
            key = ('static', tu.idx, v['d'])
            if key not in self.globals:
                self.globals[key] = ptr(self.newroot('static ' + v['name']))
            p = self.globals[key]
            if p.a[0] not in st.store:
                val = self.ev(v['init'], st) if v.get('init') else self.default_of(tu, v['t'])
                st.store[p.a[0]] = self.earlier(tu, v['d'], v['t'], val, st)
            fr.env[v['d']] = p
            return
        if t.get('ref'):
            p = self.lv(v['init'], st) if v.get('init') else NULL
            fr.env[v['d']] = p
        else:
            if v.get('init'):
                val = self.coerce(self.ev(v['init'], st), tu, v['t'])
            else:
                val = self.default_of(tu, v['t'], uninit=t['k'] != 'record')
            p = self.alloc(st, val, 'local ' + v['name'], fr)
            fr.env[v['d']] = p
        for b in v.get('bindings') or []:
            e = b.get('init')
            if e is None:
                continue
            if b.get('hold') is not None:
                bp = self.lv(e, st)
                fr.env[b['hold']] = bp
                fr.env[b['d']] = bp
            else:
                fr.env[b['d']] = self.lv(e, st)

    def x_if(self, s, st):
        if s.get('init'):
            st = self.ex(s['init'], st)
            if st is None:
                return None
        if s.get('var'):
            self.declare(s['var'], st)
        cv = self.cond(s['cond'], st)
        d = self.decide(st, cv)
        if d is True:
            return self.ex(s['then'], st)
        if d is False:
            return self.ex(s.get('else'), st) if s.get('else') else st
        s1 = st.fork(cv)
        s2 = st.fork(not_(cv))
        r1 = self.ex(s['then'], s1)
        r2 = self.ex(s['else'], s2) if s.get('else') else s2
        return self.merge(r1, r2)

    def cond(self, e, st):
        v = self.ev(e, st)
        return self.tobool(v)

    def tobool(self, v):
        if v.k == 'b':
            return v
        if v.op == 'P':
            return not_(eq0(v))
        if v is NULL:
            return FALSE
        if v.op == 'ptr':
            return TRUE
        if v.op == 'ite':
            return ite(v.a[0], self.tobool(v.a[1]), self.tobool(v.a[2]))
        if v.op == 'rec' and v.a[0] == 'std::function':
            return FALSE if recget(v, 'f') is NULL else TRUE
        if v.op == 'rec' and v.a[0] == 'std::optional':
            return recget(v, 'has')
        return _mk('top', 'b', 'bool')

    def x_return(self, s, st):
        fr = self.fr
        e = s.get('e')
        if e is None:
            fr.rets.append((st, UNIT))
            return None
        rt = fr.tu.type(fr.fn.decl['ret']) if fr.fn.decl.get('ret') is not None and fr.fn.decl['ret'] >= 0 else {}
        if rt.get('ref'):
            v = self.lv(e, st)
            self.check_escape(v, st)
        elif rt.get('k') == 'void':
            self.ev(e, st, discard=True)
            v = UNIT
        else:
            v = self.coerce(self.ev(e, st), fr.tu, fr.fn.decl['ret']) if fr.fn.decl.get('ret') is not None else self.ev(e, st)
        fr.rets.append((st, v))
        return None

    def check_escape(self, p, st):
        pass

    def x_break(self, s, st):
        self.fr.brk.append(st)
        return None

    def x_continue(self, s, st):
        self.fr.cont.append(st)
        return None

    def x_try(self, s, st):
        self.throws.append([])
        start = st
        try:
            end = self.ex(s['body'], st.copy())
        finally:
            thrown = self.throws.pop()
        outs = [(end, UNIT)] if end is not None else []
        # group by type, in order; handlers run on the merged state
        byt = {}
        for ts, tt in thrown:
            if ts.facts.bad:
                continue
            byt.setdefault(tt, []).append((ts, UNIT))
        caught = []
        for tt, lst in byt.items():
            m, _ = self.merge_vals(lst)
            if m is None:
                continue
            h = None
            for hd in s['handlers']:
                if hd['t'] == -1 or self.catches(self.fr.tu, hd['t'], tt):
                    h = hd
                    break
            if h is None:
                self.throws[-1].append((m, tt))
                continue
            if h.get('d') is not None:
                self.fr.env[h['d']] = self.alloc(m, rec('exception', (('type', _mk('sym', 'o', tt)),)), 'exception', self.fr)
            cur = getattr(self, 'curexc', None)
            self.curexc = tt
            r = self.ex(h['body'], m)
            self.curexc = cur
            if r is not None:
                outs.append((r, UNIT))
        m, _ = self.merge_vals(outs)
        return m

    def catches(self, tu, ht, tt):
        t = tu.type(ht)
        n = t['u']
        if n == tt:
            return True
        x = tt
        while x in EXC:
            x = EXC[x]
            if x == n:
                return True
        if tt.startswith('?'):
            return True
        return False

    def throw(self, st, typ):
        self.throws[-1].append((st.copy(), typ))
        raise Dead()

    def throw_if(self, st, cond, typ):
        """throw when cond; continue with not cond"""
        if cond is FALSE:
            return
        d = self.decide(st, cond)
        if d is False:
            return
        if d is True:
            self.throw(st, typ)
        self.throws[-1].append((st.fork(cond), typ))
        st.facts = st.facts.assume(not_(cond))
        G.facts = st.facts

    def x_switch(self, s, st):
        fr = self.fr
        v = self.ev(s['cond'], st)
        body = s['body']
        stmts = body['c'] if body['k'] == 'block' else [body]
        # flatten case labels
        seq = []

        def add(x):
            if x is None:
                return
            if x['k'] == 'case':
                seq.append(('case', x['v']))
                add(x['body'])
            elif x['k'] == 'default':
                seq.append(('default', None))
                add(x['body'])
            else:
                seq.append(('stmt', x))
        for x in stmts:
            add(x)
        oldb = fr.brk
        fr.brk = []
        try:
            labels = [(i, x) for i, x in enumerate(seq) if x[0] == 'case']
            conds = []
            rem = TRUE
            cur = None     # fall-through state
            rest = st
            casec = {}
            for i, x in labels:
                casec[i] = eq(v, self.ev(x[1], st.copy()))
            alln = and_(*[not_(z) for z in casec.values()])
            for i, x in enumerate(seq):
                if x[0] == 'case':
                    d = self.decide(st, casec[i])
                    if d is not False:
                        cur = self.merge(cur, st.fork(casec[i]))
                elif x[0] == 'default':
                    f = st.fork(alln)
                    if not f.facts.bad:
                        cur = self.merge(cur, f)
                elif cur is not None:
                    cur = self.ex(x[1], cur)
            if not any(x[0] == 'default' for x in seq):
                f = st.fork(alln)
                if not f.facts.bad:
                    cur = self.merge(cur, f)
            outs = [(b, UNIT) for b in fr.brk]
            if cur is not None:
                outs.append((cur, UNIT))
        finally:
            fr.brk = oldb
        m, _ = self.merge_vals(outs)
        return m

    # -- loops --------------------------------------------------------------
    def x_for(self, s, st):
        st = self.ex(s['init'], st) if s.get('init') else st
        if st is None:
            return None

        def cond(z):
            return self.cond(s['cond'], z) if s.get('cond') else TRUE

        def inc(z):
            if s.get('inc'):
                self.ev(s['inc'], z, discard=True)
        if s.get('cond'):
            r = self.iterative(s, st)
            if r is not None:
                return r
        return self.loop(st, cond, lambda z: self.ex(s['body'], z), inc, peel=self.leaves(s['body']))

    def x_while(self, s, st):
        r = self.iterative(s, st)
        if r is not None:
            return r
        return self.loop(st, lambda z: self.cond(s['cond'], z), lambda z: self.ex(s['body'], z), lambda z: None)

    # iterations that end when a computed number says so -------------------
    def iterative(self, s, st):
        """A loop whose condition reads a floating-point variable that the
        loop itself computes is not summarised: what it leaves behind is an
        unknown function of what it reads."""
        if not s.get('cond'):
            return None
        tu = self.fr.tu
        decls = set()
        reads = {}
        writes = {}
        bad = []
        inner = []

        def base(e):
            while e['k'] in ('index', 'cast', 'un', 'paren') or e['k'] == 'bin' and e.get('op') in ('+', '-'):
                e = e['c'][0]
            return e

        def wr(e):
            b = base(e)
            if b['k'] != 'ref':
                bad.append(b['k'])
                return
            writes[b['d']] = b

        def go(x):
            if isinstance(x, list):
                for y in x:
                    go(y)
                return
            if not isinstance(x, dict):
                return
            k = x.get('k')
            if k in ('lambda', 'throw', 'return', 'goto', 'try', 'new', 'delete', 'this', 'member', 'construct', 'initlist'):
                bad.append(k)
                return
            if k == 'var':
                decls.add(x['d'])
            if k in ('for', 'while', 'do', 'range'):
                inner.append(k)
            if k == 'ref':
                reads[x['d']] = x
            if k == 'bin' and x['op'].endswith('=') and x['op'] not in ('==', '!=', '<=', '>='):
                wr(x['c'][0])
            if k == 'un' and ('++' in x['op'] or '--' in x['op']):
                wr(x['c'][0])
            if k == 'un' and x['op'] == '&':
                wr(x['c'][0])
            if k == 'call':
                if x.get('fn') is None or x.get('selfarg'):
                    bad.append('call')
                    return
                d = tu.decls[x['fn']]
                for y in x['c']:
                    t = tu.type(y['t']) if isinstance(y.get('t'), int) else {'k': '?'}
                    if t['k'] == 'ptr' or t['k'] == 'carray' or (y.get('lv') and not d.get('sys')):
                        wr(y)
            for z in x.values():
                if isinstance(z, (dict, list)):
                    go(z)
        cr = {}
        go(s['cond'])
        cr.update(reads)
        if bad or not any(self.floatvar(tu, d) for d in cr):
            return None
        for part in ('body', 'inc'):
            go(s.get(part))
        if bad or not inner or not any(d in writes and self.floatvar(tu, d) for d in cr):
            return None
        ins = []
        outs = []
        for d, x in sorted(reads.items()):
            dd = tu.decls.get(d)
            if d in decls or (dd is not None and dd['kind'] in ('fn', 'enumconst')):
                continue
            try:
                p = self.l_ref(x, st)
            except KeyError:
                return None
            v = self.read(st, p)
            name = (dd or {}).get('name', str(d))
            if v.op == 'ptr':
                if not v.a[1] or v.a[1][-1][0] != 'i' or v.a[0] not in st.store:
                    return None
                cont = ptr(v.a[0], v.a[1][:-1])
                w = self.read(st, cont)
                ins += [w, v.a[1][-1][1]]
                if d in writes:
                    outs.append((cont, w, name))
            elif v.op == 'P' or v.k == 'b' or v.k[0] == 's':
                ins.append(ind(v) if v.k == 'b' else v)
                if d in writes:
                    outs.append((p, v, name))
            else:
                return None
        ins = [st.facts.norm(v) for v in ins]
        pos = 'iteration in ' + self.fr.fn.decl['qname'] + ' #' + str(s.get('l') or self.line)
        # the loop may also do nothing
        enter = self.tobool(self.cond(s['cond'], st))
        for p, v, name in outs:
            if v.op == 'P':
                r = c.uf(pos + ' ' + name, 'i' if c.isint(v) else 'r', *ins)
            elif v.k == 'b':
                r = not_(eq(c.uf(pos + ' ' + name, 'i', *ins), ZERO))
            else:
                n = c.len_(v)
                m = c.cint(n)
                ek = c.elemkind(v.k)
                if m is not None and m <= 64:
                    r = c.elems(v.k, [c.uf('%s %s' % (pos, name), ek, C(j), *ins) for j in range(m)])
                else:
                    x = c.fresh('j', 'i', 'nn')
                    r = c.tab(n, x, c.uf('%s %s' % (pos, name), ek, A(x), *ins))
            G.facts = st.facts
            self.write(st, p, ite(enter, r, v))
        return st

    def floatvar(self, tu, d):
        dd = tu.decls.get(d)
        return dd is not None and isinstance(dd.get('t'), int) and tu.type(dd['t'])['k'] == 'float'

    def x_do(self, s, st):
        # body once, then an ordinary loop
        fr = self.fr
        ob, oc = fr.brk, fr.cont
        fr.brk, fr.cont = [], []
        try:
            end = self.ex(s['body'], st)
            for x in fr.cont:
                end = self.merge(x, end)
            brks = fr.brk
        finally:
            fr.brk, fr.cont = ob, oc
        r = None
        if end is not None:
            r = self.iterative(s, end)
        if r is None and end is not None:
            r = self.loop(end, lambda z: self.cond(s['cond'], z), lambda z: self.ex(s['body'], z), lambda z: None)
        for b in brks:
            r = self.merge(b, r)
        return r

    def x_range(self, s, st):
        fr = self.fr
        if s.get('init'):
            st = self.ex(s['init'], st)
            if st is None:
                return None
        p = self.lv(s['range'], st)
        cp = self.std.rangeptr(self, st, p)
        if cp is None:
            self.unsup('range-for over this type')
            raise Unsupported('range-for')
        n = c.len_(self.read(st, cp))
        var = s['var']
        tu = fr.tu
        vt = tu.type(var['t'])

        def body(z, i):
            ep = self.pproj(cp, ('i', i))
            if vt.get('ref'):
                fr.env[var['d']] = ep
            else:
                fr.env[var['d']] = self.alloc(z, self.coerce(self.read(z, ep), tu, var['t']), 'local ' + var['name'], fr)
            for b in var.get('bindings') or []:
                e = b.get('init')
                if e is not None:
                    bp = self.lv(e, z)
                    if b.get('hold') is not None:
                        fr.env[b['hold']] = bp
                    fr.env[b['d']] = bp
            return self.ex(s['body'], z)
        return self.counted(st, n, body)

    def counted(self, st, n, body):
        """for i in 0..n-1: body(state, i).  Returns the state after the loop."""
        r = self.newroot('counter')
        st.store[r] = ZERO
        self.rootinfo[r] = 'counter!nn'

        def cond(z):
            return lt(z.store[r], n)

        def inc(z):
            z.store[r] = c.padd(z.store[r], ONE)
        res = self.loop(st, cond, lambda z: body(z, z.store[r]), inc)
        if res is not None:
            res.store.pop(r, None)
        return res

    def leaves(self, n):
        """whether the statement contains a return"""
        if isinstance(n, list):
            return any(self.leaves(x) for x in n)
        if not isinstance(n, dict):
            return False
        r = n.get('_leaves')
        if r is None:
            r = n.get('k') == 'return' or (n.get('k') != 'lambda' and any(
                self.leaves(v) for k, v in n.items() if isinstance(v, (dict, list))))
            n['_leaves'] = r
        return r

    def peeled(self, st0, cond, body, inc):
        """number of iterations, all certain to take place, after which the
        loop has certainly been left by a return; 0 if not known"""
        fr = self.fr
        rec0 = self.rec
        self.rec = False
        sv = fr.rets, fr.brk, fr.cont
        fr.rets, fr.brk, fr.cont = [], [], []
        self.throws.append([])
        st = st0.copy()
        try:
            for n in range(1, 4):
                G.facts = st.facts
                try:
                    cv = cond(st)
                except Dead:
                    return 0
                if self.decide(st, cv) is not True:
                    return 0
                end = self.ex_body(body, st)
                for x in fr.cont:
                    end = self.merge(x, end)
                fr.cont = []
                if fr.brk:
                    return 0
                if end is None:
                    return n
                st = end
                G.facts = st.facts
                inc(st)
            return 0
        except Unsupported:
            return 0
        finally:
            self.rec = rec0
            self.throws.pop()
            fr.rets, fr.brk, fr.cont = sv

    def loop(self, st, cond, body, inc, unroll=140, peel=False):
        """abstract loop; body returns a state or None, continue/break states
        are collected in the frame."""
        fr = self.fr
        ob, oc = fr.brk, fr.cont
        fr.brk, fr.cont = [], []
        breaks = []
        try:
            n = 0
            left = None
            while True:
                probe = st.copy()
                G.facts = probe.facts
                rec0 = self.rec
                self.rec = False
                self.throws.append([])
                try:
                    cv = cond(probe)
                except Dead:
                    cv = None
                finally:
                    self.throws.pop()
                    self.rec = rec0
                if cv is None:
                    cond(st)     # raises Dead with the throw recorded
                cn = st.facts.norm(cv)
                if cn is TRUE and n < unroll:
                    n += 1
                    cond(st)
                    end = self.ex_body(body, st)
                    for x in fr.cont:
                        end = self.merge(x, end)
                    fr.cont = []
                    breaks.extend(fr.brk)
                    fr.brk = []
                    if end is None:
                        st = None
                        break
                    st = end
                    G.facts = st.facts
                    inc(st)
                    if st.facts.bad:
                        st = None
                        break
                    continue
                if cn is FALSE:
                    cond(st)
                    break
                if peel and left is None:
                    left = self.peeled(st, cond, body, inc)
                if left:
                    left -= 1
                    cond(st)
                    end = self.ex_body(body, st)
                    for x in fr.cont:
                        end = self.merge(x, end)
                    fr.cont = []
                    if end is None or not left:
                        st = None
                        break
                    st = end
                    G.facts = st.facts
                    inc(st)
                    continue
                st, bs = self.summarise(st, cond, body, inc)
                breaks.extend(bs)
                break
        finally:
            fr.brk, fr.cont = ob, oc
        for b in breaks:
            if not b.facts.bad:
                st = self.merge(b, st)
        return st

    def ex_body(self, body, st):
        try:
            G.facts = st.facts
            if st.facts.bad:
                return None
            return body(st)
        except Dead:
            return None

    def iterate(self, st, cond, body, inc):
        """one abstract iteration.  Returns (cv, exitstate, endstate, breaks,
        rets, throws)"""
        fr = self.fr
        orets = fr.rets
        fr.rets = []
        fr.brk, fr.cont = [], []
        self.throws.append([])
        try:
            try:
                G.facts = st.facts
                cv = cond(st)
            except Dead:
                return None, None, None, [], fr.rets, self.throws[-1]
            ex = st.fork(not_(cv))
            sb = st.fork(cv)
            end = None
            if not sb.facts.bad:
                end = self.ex_body(body, sb)
                for x in fr.cont:
                    end = self.merge(x, end)
                if end is not None:
                    try:
                        G.facts = end.facts
                        inc(end)
                    except Dead:
                        end = None
            return cv, ex, end, list(fr.brk), fr.rets, self.throws[-1]
        finally:
            self.throws.pop()
            fr.rets = orets
            fr.brk, fr.cont = [], []

    # leaves of the store that a loop changes ------------------------------
    def diff(self, a, b, path, out):
        if a is b:
            return
        if a.op == 'rec' and b.op == 'rec' and a.a[0] == b.a[0] and len(a.a[1]) == len(b.a[1]):
            for (n, x), (m, y) in zip(a.a[1], b.a[1]):
                self.diff(x, y, path + (n,), out)
            return
        out.append(path)

    def leaf(self, store, path):
        v = store[path[0]]
        for n in path[1:]:
            v = recget(v, n)
        return v

    def setleaf(self, store, path, x):
        def go(v, p):
            if not p:
                return x
            return recset(v, p[0], go(recget(v, p[0]), p[1:]))
        store[path[0]] = go(store[path[0]], path[1:])

    def hsym(self, path, v, facts, nonn, samelen, base):
        nm = 'h%s' % '.'.join(str(x) for x in path)
        if v.op == 'P':
            isi = c.isint(v) and path not in base.get('real', ())
            if isi:
                if path not in nonn and (facts.prove_ge(v)):
                    return A(c.fresh(nm, 'i', 'nn'))
                return A(c.fresh(nm, 'i'))
            return A(c.fresh(nm, 'r'))
        if v.k == 'b':
            return c.fresh(nm, 'b')
        if v.k[0] == 's':
            if path in samelen:
                return c.fresh(nm, v.k, c.len_(v))
            return c.fresh(nm, v.k, A(c.fresh('l' + nm, 'i', 'nn')))
        return c.fresh(nm, 'o')

    def summarise(self, st0, cond, body, inc):
        """returns (state after normal exit or None, [break states])"""
        rec0 = self.rec
        fr = self.fr
        base = st0.facts
        W = []
        nonn = set()
        samelen = set()
        info = {'real': set()}
        self.rec = False
        try:
            # --- discovery of changed leaves
            for rnd in range(12):
                st = st0.copy()
                H = {}
                G.facts = base
                for p in W:
                    v0 = self.leaf(st0.store, p)
                    h = self.hsym(p, v0, base, nonn, samelen, info)
                    H[p] = h
                    self.setleaf(st.store, p, h)
                start = dict(st.store)
                cv, exs, end, brks, rets, thr = self.iterate(st, cond, body, inc)
                new = []
                again = False
                for s in [x for x in (end, exs) if x is not None]:
                    for r, v in s.store.items():
                        if r in start and v is not start[r]:
                            out = []
                            self.diff(start[r], v, (r,), out)
                            for p in out:
                                if p in W:
                                    continue
                                if any(q[:len(p)] == p for q in W):
                                    # a whole record replaced: coarsen
                                    W[:] = [q for q in W if q[:len(p)] != p]
                                    new.append(p)
                                elif p not in new:
                                    new.append(p)
                # kinds and lengths
                if end is not None:
                    for p, h in H.items():
                        e = self.leaf(end.store, p)
                        if h.op == 'P' and e.op == 'P' and c.isint(h) and not c.isint(e) and p not in info['real']:
                            info['real'].add(p)
                            again = True
                        if h.k[0] == 's' and e.k[0] == 's' and p not in samelen:
                            if c.len_(e) is c.len_(h) or c.len_(e) is c.len_(self.leaf(st0.store, p)):
                                samelen.add(p)
                                again = True
                if not new and not again:
                    break
                W.extend(x for x in new if x not in W)
            else:
                return self.giveup(st0, W, cond, rec0, 'loop discovery'), []
            # --- solve leaves
            i = c.fresh('i', 'i', 'nn')
            I = A(i)
            res = None
            for attempt in range(3):
                res = self.solve(st0, W, i, cond, body, inc, nonn, samelen, info)
                if res is None or res != 'retry':
                    break
            if res is None or res == 'retry':
                return self.giveup(st0, W, cond, rec0, 'loop summary'), []
            closed, N = res
            # --- final pass with events, at iteration i
            self.rec = rec0
            st = st0.copy()
            G.facts = base.assume(and_(ge0(I), lt(I, N)))
            st.facts = G.facts
            rng = st.facts
            for p in W:
                self.setleaf(st.store, p, closed(p, I))
            ev0 = len(self.events)
            cv, exs, end, brks, rets, thr = self.iterate(st, cond, body, inc)
            if cv is None:
                return None, []
        finally:
            self.rec = rec0
        # --- exits
        outs = []
        for z in brks:
            outs.append(('b', z, None))
        for z, v in rets:
            outs.append(('r', z, v))
        for z, v in thr:
            outs.append(('t', z, v))
        dcv = rng.decide(cv)
        if dcv is not True and exs is not None and not exs.facts.bad:
            # part of the loop condition that is not the counter
            outs.insert(0, ('x', exs, None))
        outs = [o for o in outs if not o[1].facts.bad]
        breaks = []
        G.facts = base
        normal_ok = TRUE
        if outs:
            conds = []
            for kind, z, v in outs:
                conds.append(and_(*lits_since(z.facts, rng)))
            # simplify conditions under the range facts
            G.facts = rng
            E = or_(*conds)
            # abrupt exits
            G.facts = base
            ex_any = c.ex(N, i, E)
            d = base.decide(ex_any)
            if d is not False:
                Jp = c.first(N, i, E)
                f1 = base.assume(ex_any)
                f1 = f1.assume(and_(ge0(Jp), lt(Jp, N)))
                for (kind, z, v), cnd in zip(outs, conds):
                    G.facts = f1
                    m = {i: Jp}
                    cj = c.subst(cnd, m) if len(outs) > 1 else TRUE
                    f2 = f1.assume(c.subst(cnd, m))
                    if f2.bad:
                        continue
                    G.facts = f2
                    z2 = State({}, f2)
                    rw = c.Rewriter(m)
                    for r, val in z.store.items():
                        z2.store[r] = rw.go(val) if i in val.fs else val
                    v2 = rw.go(v) if v is not None and v.__class__ is T and i in v.fs else v
                    if kind in ('b', 'x'):
                        breaks.append(z2)
                    elif kind == 'r':
                        fr.rets.append((z2, v2))
                    else:
                        self.throws[-1].append((z2, v2))
            normal_ok = not_(ex_any)
        G.facts = base
        # --- normal exit
        f = base.assume(normal_ok)
        if f.bad:
            return None, breaks
        st = st0.copy()
        st.facts = f
        G.facts = f
        for p in W:
            self.setleaf(st.store, p, closed(p, N))
        # condition false at the end (and its side effects)
        self.throws.append([])
        try:
            cvN = cond(st)
        except Dead:
            self.throws[-2].extend(self.throws[-1])
            return None, breaks
        finally:
            self.throws.pop()
        st.facts = st.facts.assume(not_(cvN))
        if st.facts.bad:
            st.facts = f
        G.facts = st.facts
        return st, breaks

    def giveup(self, st0, W, cond, rec0, why):
        self.rec = rec0
        self.unsup(why)
        st = st0.copy()
        for p in W:
            self.setleaf(st.store, p, self.havoc(self.leaf(st0.store, p), why))
        # exits of the body are unknown too: everything after is undecided
        st.store[self.trace_root] = _mk('top', 'so', why)
        self.lost = True
        self.frame_poison(why)
        return st

    def frame_poison(self, why):
        """returns and throws inside an unsummarised loop are not known"""
        self.poisoned = why

    def tripcount(self, cv, i, facts):
        """number of leading iterations for which the counting part of cv
        holds; returns (N, residual condition)"""
        I = A(i)
        if cv.op == 'iteb' and i not in cv.a[0].fs:
            x = self.tripcount(cv.a[1], i, facts) if cv.a[1] is not FALSE else ZERO
            y = self.tripcount(cv.a[2], i, facts) if cv.a[2] is not FALSE else ZERO
            if x is not None and y is not None:
                return ite(cv.a[0], x, y)
            return None
        lits = list(cv.a[0]) if cv.op == 'and' else [cv]
        for l in lits:
            y, pos = (l.a[0], False) if l.op == 'not' else (l, True)
            if y.op == 'ge0' or y.op == 'gt0':
                p = y.a[0]
                if not pos:
                    p = c.padd(c.pneg(p), C(-1)) if c.isint(p) else c.pneg(p)
                cf = p.d.get(((i, 1),), 0)
                if cf >= 0 or cf.__class__ is not int:
                    continue
                r = c.psub(p, c.pscale(I, cf))
                if i in r.fs:
                    continue
                if not c.isint(r):
                    # double bound: i < x  <=>  i < ceil(x)
                    if cf != -1:
                        continue
                    strict = (y.op == 'gt0') == pos
                    # p = r - i >= 0 (or > 0)
                    fl = c.floor_(r)
                    n = c.padd(fl, ONE)
                    if strict:
                        n = c.pneg(c.floor_(c.pneg(r)))
                    n = n if facts.prove_ge(n) else ite(ge0(n), n, ZERO)
                    return n
                a = -cf
                if a == 1:
                    n = c.padd(r, ONE)
                else:
                    n = c.padd(c.idiv(r, C(a)), ONE) if facts.prove_ge(r) else \
                        ite(ge0(r), c.padd(c.idiv(r, C(a)), ONE), ZERO)
                if facts.prove_ge(n):
                    return n
                return ite(ge0(n), n, ZERO)
            if y.op == 'eq0' and not pos:
                p = y.a[0]
                cf = p.d.get(((i, 1),), 0)
                if cf not in (1, -1):
                    continue
                r = c.pscale(c.psub(p, c.pscale(I, cf)), -cf)
                if i in r.fs:
                    continue
                if facts.prove_ge(r):
                    return r
        return None

    def solve(self, st0, W, i, cond, body, inc, nonn, samelen, info):
        base = st0.facts
        I = A(i)
        sol = {}            # path -> function(index poly) -> term
        N = None
        H = {}
        v0 = {p: self.leaf(st0.store, p) for p in W}
        hvs = {}
        G.facts = base
        guesses = {}

        def start():
            st = st0.copy()
            f = base
            if N is not None:
                G.facts = base
                f = base.assume(and_(ge0(I), lt(I, N)))
            st.facts = f
            G.facts = f
            for p in W:
                if p in sol:
                    self.setleaf(st.store, p, sol[p](I))
                else:
                    if p not in H:
                        H[p] = self.hsym(p, v0[p], base, nonn, samelen, info)
                        hv = H[p]
                        hvs[p] = hv if hv.op == 'sym' else list(c.atoms_of(hv))[0]
                    self.setleaf(st.store, p, H[p])
            return st

        def hsyms():
            out = set()
            for p in W:
                if p not in sol and p in hvs:
                    h = hvs[p]
                    out.add(h)
                    if h.k[0] == 's':
                        for a in c.atoms_of(h.a[1]):
                            if a.a[0].startswith('lh') if a.op == 'sym' else False:
                                out.add(a)
            return out

        for rnd in range(14):
            st = start()
            cv, exs, end, brks, rets, thr = self.iterate(st, cond, body, inc)
            if cv is None:
                return None
            if end is None:
                # the body never completes normally: at most one iteration
                for p in W:
                    if p not in sol:
                        sol[p] = (lambda v: (lambda j: v))(v0[p])
                end = None
                if N is None:
                    N = self.tripcount(cv, i, base)
                    if N is None:
                        f = base.decide(cv)
                        N = ite(cv, ONE, ZERO) if i not in cv.fs and not (cv.fs & hsyms()) else None
                    if N is None:
                        return None
                break
            progress = False
            hs = hsyms()
            if DEBUG:
                dbg('round', rnd, 'line', self.line, 'N', N, 'cv', cv)
                for p in W:
                    if p not in sol:
                        dbg('   ', p, self.rootinfo.get(p[0]), 'h', H[p], 'end', self.leaf(end.store, p) if end else None)
            # induction variables first
            ends = {p: self.leaf(end.store, p) for p in W if p not in sol}
            G.facts = end.facts
            for p, e in ends.items():
                h = H[p]
                e = end.facts.norm(e) if end.facts.sub else e
                f = self.solve_leaf(p, h, hvs[p], e, v0[p], i, hs, base, N, induct=True)
                if f is not None:
                    sol[p] = f
                    progress = True
                    if h.op == 'P' and 'nn' in hvs[p].a[1:]:
                        guesses[p] = f
            if N is None and not progress or (N is None and not any(True for p in W if p not in sol)):
                pass
            if progress:
                # recompute with the induction variables in closed form
                if N is None:
                    st = start()
                    cv2, _, _, _, _, _ = self.iterate(st, cond, body, inc)
                    if cv2 is None:
                        return None
                    if not (cv2.fs & hsyms()) or cv2.op == 'and':
                        N = self.tripcount(cv2, i, base.assume(ge0(I)))
                continue
            if N is None:
                if not (cv.fs & hs) or cv.op == 'and':
                    N = self.tripcount(cv, i, base.assume(ge0(I)))
                if N is None:
                    return None
                continue
            if not ends:
                break
            for p, e in ends.items():
                h = H[p]
                e2 = e
                if end.facts.sub:
                    e2 = end.facts.norm(e)
                f = self.solve_leaf(p, h, hvs[p], e2, v0[p], i, hs, base, N, induct=False)
                if f is not None:
                    sol[p] = f
                    progress = True
                    if h.op == 'P' and 'nn' in hvs[p].a[1:]:
                        guesses[p] = f
            if progress:
                continue
            # mutually dependent: joint fold
            return self.joint(st0, W, sol, H, hvs, ends, v0, i, N, base) or None
        else:
            return None
        if N is None:
            return None
        # validate non-negativity guesses
        G.facts = base
        f = base.assume(and_(ge0(I), le(I, N)))
        for p, fn in guesses.items():
            G.facts = f
            v = fn(I)
            if not f.prove_ge(v):
                nonn.add(p)
                return 'retry'

        def closed(p, j):
            return sol[p](j)
        return closed, N

    def solve_leaf(self, p, h, hs, e, v0, i, allh, base, N, induct):
        I = A(i)
        free = lambda t: not (t.fs & allh)
        if e is h:
            return lambda j: v0
        if istop(e):
            if induct:
                return None
            tv = self.havoc(v0, 'loop value')
            return lambda j: tv
        if h.op == 'P' and e.op == 'P':
            d = c.psub(e, h)
            if free(d):
                if i not in d.fs:
                    return lambda j: c.padd(v0, c.pmul(d, j))
                if N is not None or not induct:
                    return lambda j: c.padd(v0, c.sum_(j, i, d))
                return None
            if induct:
                return None
            if free(e):
                return self.overwritten(v0, e, i)
            # h*a (product)
            q = c.polydiv(e, h)
            # min / max accumulation
            if len(e.d) == 1:
                (m, cf), = e.d.items()
                if cf == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('min', 'max'):
                    args = m[0][0].a[0]
                    oth = [x for x in args if x is not h]
                    if len(oth) == len(args) - 1 and all(free(x) for x in oth):
                        which = m[0][0].op
                        fo = c.fmm(which)
                        mm = c.min_ if which == 'min' else c.max_
                        ev = mm(*oth)
                        return lambda j: mm(v0, fo(j, i, ev))
            # last value wins under a condition / counting conditions
            if q is not None and not q[1].d and free(q[0]) and i not in q[0].fs and c.isconst(q[0]):
                pass
            return self.fold_single(h, hs, e, v0, i, free, allh)
        if h.k == 'b' and e.k == 'b':
            if induct:
                return None
            if free(e):
                return self.overwritten(v0, e, i)
            if e.op == 'or' and h in e.a[0]:
                oth = or_(*[x for x in e.a[0] if x is not h])
                # h | (!h & x) is simplified already
                if free(oth):
                    return lambda j: or_(v0, c.ex(j, i, oth))
            if e.op == 'and' and h in e.a[0]:
                oth = and_(*[x for x in e.a[0] if x is not h])
                if free(oth):
                    return lambda j: and_(v0, not_(c.ex(j, i, not_(oth))))
            return self.fold_single(h, hs, e, v0, i, free, allh)
        if h.k[0] == 's' and e.k[0] == 's':
            if e.op == 'cat':
                ps = e.a[0]
                if ps[0] is h:
                    tail = c.cat(e.k, *ps[1:])
                    if free(tail) and (N is not None or not induct or True):
                        if N is None and induct:
                            return None
                        return lambda j: c.cat(v0.k if v0.k != 'so' else e.k, v0, c.comp(j, i, tail))
                if ps[-1] is h:
                    head = c.cat(e.k, *ps[:-1])
                    if free(head) and not induct:
                        def pre(j):
                            x = c.fresh('x', 'i', 'nn')
                            return c.cat(e.k, c.comp(j, x, c.subst(head, {i: c.psub(c.psub(j, ONE), A(x))})), v0)
                        return pre
            if induct:
                return None
            if free(e):
                return self.overwritten(v0, e, i)
            if e.op == 'elems' and h.op == 'sym' and len(e.a[0]) == c.cint(h.a[1]):
                r = self.fixed_elem(h, hs, [(ZERO, e)], v0, i, free, base, N)
                if r is not None:
                    return r
            r = self.solve_upd(h, hs, e, v0, i, free, base, N)
            if r is not None:
                return r
            return self.fold_single(h, hs, e, v0, i, free, allh)
        if induct:
            return None
        if free(e):
            return self.overwritten(v0, e, i)
        return self.fold_single(h, hs, e, v0, i, free, allh)

    def overwritten(self, v0, e, i):
        """value at the start of iteration j: v0 if j==0 else e(j-1)"""
        if i not in e.fs:
            def f(j):
                return ite(ge0(c.padd(j, C(-1))), e, v0)
            return f

        def f2(j):
            cnd = ge0(c.padd(j, C(-1)))
            d = c.decide(cnd)
            if d is False:
                return v0
            with c.assuming(cnd):
                x = c.subst(e, {i: c.psub(j, ONE)})
            return ite(cnd, x, v0)
        # e(-1) == v0 : uniform closed form
        x0 = None
        try:
            x0 = c.subst(e, {i: C(-1)})
        except Exception:
            pass
        if x0 is v0:
            return lambda j: c.subst(e, {i: c.psub(j, ONE)})
        return f2

    def solve_upd(self, h, hs, e, v0, i, free, base, N):
        """array overwritten piecewise: e = upd(h, p(i), S(i))"""
        I = A(i)
        if e.op == 'ite':
            return None
        if e.op != 'upd':
            return None
        # collect the writes
        ws = []
        t = e
        while t.op == 'upd':
            ws.append((t.a[1], t.a[2]))
            t = t.a[0]
        if t is not h:
            return None
        ws.reverse()
        if any(not free(p) for p, w in ws):
            return None
        if len(ws) == 1:
            p, w = ws[0]
            lw = c.len_(w)
            # contiguous: p(i+1) = p(i) + |w(i)|
            p1 = c.subst(p, {i: c.padd(I, ONE)})
            G.facts = base.assume(and_(ge0(I), lt(I, N)))
            contiguous = c.psub(p1, c.padd(p, lw)) is ZERO or c.prove(eq0(c.psub(p1, c.padd(p, lw))))
            if contiguous:
                p0 = c.subst(p, {i: ZERO})
                w2 = self.resolve_self(h, w, v0, p, i, 'fwd', p0)
                if w2 is not None and free(w2):
                    def f(j):
                        return c.upd(v0, p0, c.comp(j, i, w2))
                    return f
            # descending: p(i+1) + |w(i+1)| = p(i)
            w1 = c.subst(w, {i: c.padd(I, ONE)})
            if free(w) and c.padd(p1, c.len_(w1)) is p:
                p0 = c.subst(p, {i: ZERO})
                l0 = c.subst(lw, {i: ZERO})

                def fd(j):
                    x = c.fresh('x', 'i', 'nn')
                    rows = c.comp(j, x, c.subst(w, {i: c.psub(c.psub(j, ONE), A(x))}))
                    return c.upd(v0, c.psub(c.padd(p0, l0), c.len_(rows)), rows)
                return fd
            if cint_is(lw, 1):
                wv = c.at(w, ZERO)
                # accumulate at a data dependent place: h[p] + d
                if wv.op == 'P':
                    old = c.at(h, p)
                    d = c.psub(wv, old)
                    if free(d):
                        def acc(j):
                            y = c.fresh('y', 'i', 'nn')
                            G_ = c.padd(c.at(v0, A(y)), c.sum_(j, i, c.pmul(d, ind(eq0(c.psub(p, A(y)))))))
                            return c.tab(c.len_(v0), y, G_)
                        return acc
                # strided single elements
            st = self.strided(h, ws, v0, i, free, base, N)
            if st is not None:
                return st
            # fixed position overwritten every time
            if i not in p.fs:
                if free(w):
                    return self.overwritten(v0, c.upd(v0, p, w), i)
                # accumulation at a fixed position: treat the element as a scalar
                if cint_is(lw, 1):
                    r = self.fixed_elem(h, hs, [(p, w)], v0, i, free, base, N)
                    if r is not None:
                        return r
            return None
        r = self.strided(h, ws, v0, i, free, base, N)
        if r is not None:
            return r
        if all(i not in p.fs for p, w in ws):
            if all(free(w) for p, w in ws):
                t = v0
                for p, w in ws:
                    t = c.upd(t, p, w)
                return self.overwritten(v0, t, i)
            return self.fixed_elem(h, hs, ws, v0, i, free, base, N)
        return None

    def fixed_elem(self, h, hs, ws, v0, i, free, base, N):
        """elements at fixed positions accumulated: h[p] += d"""
        out = []
        for p, w in ws:
            n = c.cint(c.len_(w))
            if n is None or n > 32:
                return None
            for k in range(n):
                q = c.padd(p, C(k))
                wv = c.at(w, C(k))
                if wv.op != 'P':
                    return None
                old = c.at(h, q)
                d = c.psub(wv, old)
                if free(d):
                    out.append((q, 'add', d))
                    continue
                # min / max
                ok = False
                if len(wv.d) == 1:
                    (m, cf), = wv.d.items()
                    if cf == 1 and len(m) == 1 and m[0][1] == 1 and m[0][0].op in ('min', 'max'):
                        args = m[0][0].a[0]
                        oth = [x for x in args if x is not old]
                        if len(oth) == len(args) - 1 and all(free(x) for x in oth):
                            out.append((q, m[0][0].op, oth))
                            ok = True
                if not ok:
                    return None

        def f(j):
            t = v0
            for q, kind, d in out:
                o = c.at(v0, q)
                if kind == 'add':
                    x = c.padd(o, c.sum_(j, i, d))
                else:
                    mm = c.min_ if kind == 'min' else c.max_
                    x = mm(o, c.fmm(kind)(j, i, mm(*d)))
                t = c.upd(t, q, c.elems(v0.k, [x]))
            return t
        return f

    def resolve_self(self, h, w, v0, p, i, direction, p0):
        """the written values may read h at positions not written before"""
        if h not in w.fs:
            return w
        # prefix up to p unknown, rest as in v0
        pre = c.fresh('pre', h.k, p)
        l0 = c.len_(v0)
        view = c.cat(h.k, pre, _mk('slice', h.k, v0, p, c.psub(l0, p)))
        w2 = c.subst(w, {h: view})
        if pre in w2.fs or h in w2.fs:
            return None
        return w2

    def strided(self, h, ws, v0, i, free, base, N):
        """writes at a*i + b_k, same stride a: rows of length a"""
        I = A(i)
        stride = None
        items = []
        for p, w in ws:
            p0 = c.subst(p, {i: ZERO})
            d = c.psub(c.subst(p, {i: ONE}), p0)
            if i in d.fs or c.psub(p, c.padd(p0, c.pmul(d, I))) is not ZERO:
                return None
            if stride is None:
                stride = d
            elif stride is not d:
                return None
            lw = c.len_(w)
            if i in lw.fs:
                return None
            items.append((p0, w, lw))
        if stride is None or not stride.d:
            return None
        L0 = c.len_(v0)
        G.facts = base
        # offset of the row block
        o = items[0][0]
        for p0, w, lw in items[1:]:
            if c.prove(le(p0, o)):
                o = p0
        q = c.polydiv(o, stride)
        rowoff = ZERO
        if q is not None:
            rowoff = c.pmul(q[0], stride)
            if not (c.prove(ge0(c.psub(o, rowoff))) and c.prove(lt(c.psub(o, rowoff), stride))):
                rowoff = ZERO
        items = [(c.psub(p0, rowoff), w, lw) for p0, w, lw in items]
        for p0, w, lw in items:
            if not (c.prove(ge0(p0)) and c.prove(le(c.padd(p0, lw), stride))):
                return None
        # row i of the result: old row i with the writes
        row = c.slice_(v0, c.padd(rowoff, c.pmul(I, stride)), stride)
        G.facts = base.assume(and_(ge0(I), lt(I, N)))
        ws2 = []
        for p0, w, lw in items:
            w2 = w
            if h in w.fs:
                w2 = self.resolve_self(h, w, v0, c.padd(rowoff, c.pmul(I, stride)), i, 'fwd', p0)
                if w2 is None:
                    return None
            if not free(w2):
                return None
            ws2.append((p0, w2, lw))
        r = row
        for p0, w, lw in ws2:
            r = c.upd(r, p0, w)
        rowf = r

        # only whole rows inside v0 are handled exactly; the last row may be cut
        def f(j):
            need = c.padd(rowoff, c.pmul(j, stride))
            if not c.prove(le(need, L0)):
                d = c.decide(le(need, L0))
                if d is not True:
                    return _mk('top', v0.k, 'strided write')
            return c.upd(v0, rowoff, c.comp(j, i, rowf))
        G.facts = base
        if not base.prove_ge(c.psub(L0, c.padd(rowoff, c.pmul(N, stride)))):
            return None
        return f

    def fold_single(self, h, hs, e, v0, i, free, allh):
        """general recurrence on one leaf"""
        others = (e.fs & allh) - {hs}
        if h.k[0] == 's':
            for a in c.atoms_of(h.a[1]) if h.op == 'sym' else ():
                others = others - {a}
        if others:
            return None
        if c.istopin(e):
            return None
        k = h.k if h.op != 'P' else hs.k

        def f(j):
            return mu(k, j, i, (e,), (hs,), (v0,), 0)
        return f

    def joint(self, st0, W, sol, H, hvs, ends, v0, i, N, base):
        ps = [p for p in W if p not in sol]
        allh = set(hvs[p] for p in ps)
        es = tuple(ends[p] for p in ps)
        for p, e in zip(ps, es):
            if istop(e) or c.istopin(e):
                return None
        hs = tuple(hvs[p] for p in ps)
        vs = tuple(v0[p] for p in ps)
        for n, p in enumerate(ps):
            sol[p] = (lambda n, k: (lambda j: mu(k, j, i, es, hs, vs, n)))(n, hs[n].k)

        def closed(p, j):
            return sol[p](j)
        return closed, N

    # -- expressions ------------------------------------------------------------
    def ev(self, e, st, discard=False):
        """value of an expression"""
        if e is None:
            return UNIT
        if e.get('l'):
            self.line = e['l']
        k = e['k']
        if e.get('lv') and k not in ('call', 'cond', 'cast') and not (k in ('un', 'bin')):
            p = self.lv(e, st)
            v = self.read(st, p)
            return v
        return getattr(self, 'e_' + k)(e, st)

    def lv(self, e, st):
        """pointer to the object an expression denotes (temporaries are
        materialised)"""
        if e.get('l'):
            self.line = e['l']
        k = e['k']
        m = getattr(self, 'l_' + k, None)
        if m is not None and (e.get('lv') or k in ('this',)):
            return m(e, st)
        if k in ('call',) and e.get('lv'):
            return self.l_call(e, st)
        v = self.ev(e, st)
        return self.alloc(st, v, 'temporary', self.fr)

    def l_ref(self, e, st):
        d = e['d']
        p = self.fr.env.get(d)
        if p is not None:
            return p
        return self.globalvar(d, st)

    def globalvar(self, d, st):
        tu = self.fr.tu
        dd = tu.decls[d]
        if dd['kind'] == 'fn':
            return self.alloc(st, self.fnref(tu, d), 'function', self.fr)
        key = ('g', dd.get('qname'), dd.get('file'))
        if key not in self.globals:
            self.globals[key] = ptr(self.newroot('global ' + dd.get('name', '')))
        p = self.globals[key]
        if p.a[0] not in st.store:
            g = tu.ginit.get(d)
            ini = g.get('init') if g else None
            v = None
            if ini is not None:
                try:
                    v = self.ev(ini, st)
                except Dead:
                    v = None
            if v is None:
                v = self.std.global_value(self, tu, dd)
            if v is None:
                if g is not None and dd.get('t') is not None:
                    v = self.default_of(tu, dd['t'])
                else:
                    k = tu.kind(dd['t']) if dd.get('t') is not None else 'o'
                    v = kindtop(k, 'global ' + dd.get('name', ''))
            if g is not None and not dd.get('isconst') and dd.get('t') is not None:
                v = self.earlier(tu, d, dd['t'], v, st)
            st.store[p.a[0]] = v
        return p

    def earlier(self, tu, d, tid, v, st):
        """the value of a variable of static storage: whatever earlier calls left there"""
        dd = tu.decls.get(d) or {}
        if not str(dd.get('file', '')).startswith(_repo() + '/'):
            return v
        import rules
        how = rules.kept(self.prog, tu, d)
        if not how:
            return v
        name = dd.get('qname') or dd.get('name')
        self.stateful[name] = how
        return self.arbitrary(tu, tid, v, st, name)

    def arbitrary(self, tu, tid, v, st, name):
        t = tu.type(tid)
        nm = name.split('::')[-1]
        if v.op == 'rec':
            fs = dict(v.a[1])
            if set(fs) == {'seed', 'n'}:
                return _mk('rec', 'o', v.a[0], (('seed', A(c.fresh(nm, 'i', 'nn'))), ('n', A(c.fresh(nm, 'i', 'nn')))))
            if set(fs) == {'s_', 'count_', 'itemSize_', 'dimension_'}:
                k, n = A(c.fresh(nm, 'i', 'nn')), A(c.fresh(nm, 'i', 'nn'))
                val = {'itemSize_': k, 'count_': n, 'dimension_': A(c.fresh(nm, 'i', 'nn')), 's_': c.fresh(nm, 'sr', c.pmul(k, n))}
                return _mk('rec', 'o', v.a[0], tuple((x, val[x]) for x, y in v.a[1]))
            raise Stateful('value of ' + name)
        k = tu.kind(tid)
        if k == 'b':
            return c.fresh(nm, 'b')
        if k == 'i':
            return A(c.fresh(nm, 'i', 'nn') if t['k'] == 'uint' else c.fresh(nm, 'i'))
        if k == 'r':
            return A(c.fresh(nm, 'r'))
        if k in ('sr', 'si'):
            return c.fresh(nm, k, A(c.fresh('l' + nm, 'i', 'nn')))
        raise Stateful('value of ' + name)

    def fnref(self, tu, d):
        return _mk('fnref', 'o', tu.idx, d)

    def e_ref(self, e, st):
        tu = self.fr.tu
        dd = tu.decls.get(e['d'])
        if dd is not None and dd['kind'] == 'fn':
            return self.fnref(tu, e['d'])
        if dd is not None and dd['kind'] == 'enumconst':
            return C(dd.get('v', 0))
        return self.read(st, self.l_ref(e, st))

    def l_member(self, e, st):
        b = e['c'][0]
        tu = self.fr.tu
        dd = tu.decls.get(e['d'])
        if dd is not None and dd['kind'] in ('global', 'staticmember') or (dd is not None and dd['kind'] == 'fn'):
            return self.globalvar(e['d'], st)
        if e.get('arrow'):
            p = self.ev(b, st)
            p = self.deref(p, st)
        else:
            p = self.lv(b, st)
        q = self.pproj(p, ('f', e['name']))
        ft = tu.type(dd['t']) if dd is not None and dd.get('t') is not None else {}
        if ft.get('ref'):
            return self.read(st, q)
        return q

    def deref(self, p, st):
        if p is NULL:
            self.event('nullderef', st, TRUE)
            raise Unsupported('null dereference')
        if p.op == 'ite':
            # null branches
            n = self.nullcond(p)
            if n is not FALSE:
                self.require(st, not_(n), 'nullderef')
        return p

    def nullcond(self, p):
        if p is NULL:
            return TRUE
        if p.op == 'ite':
            return ite(p.a[0], self.nullcond(p.a[1]), self.nullcond(p.a[2]))
        return FALSE

    def e_member(self, e, st):
        # member of an rvalue
        v = self.ev(e['c'][0], st)
        if e.get('arrow'):
            return self.read(st, self.pproj(v, ('f', e['name'])))
        return recget(v, e['name']) if v.op != 'top' else v

    def e_this(self, e, st):
        return self.fr.this if self.fr.this is not None else top('this')

    def l_this(self, e, st):
        return self.fr.this

    def e_int(self, e, st):
        return self.lit_int(e)

    def lit_int(self, e):
        v = int(e['vs']) if 'vs' in e else e['v']
        if self.fr.tu.kind(e['t']) == 'b':
            return c.B(v != 0)
        return C(v)

    def e_float(self, e, st):
        s = e['v']
        if 'Inf' in s or 'inf' in s or 'INF' in s:
            return c.pneg(A(c.INF)) if s.startswith('-') else A(c.INF)
        if 'nan' in s.lower():
            return A(_mk('uf', 'r', 'NaN', ()))
        fr = Fraction(s)
        if fr.numerator > 10 ** 300:
            return A(c.INF)
        if fr.numerator < -10 ** 300:
            return c.pneg(A(c.INF))
        return C(fr)

    def e_str(self, e, st):
        return text(e['v'])

    def l_str(self, e, st):
        return self.alloc(st, text(e['v']), 'literal')

    def e_nullptr(self, e, st):
        return NULL

    def e_zeroinit(self, e, st):
        return self.default_of(self.fr.tu, e['t'])

    def e_otherexpr(self, e, st):
        self.unsup('expression ' + e.get('cls', ''))
        raise Unsupported('expression ' + e.get('cls', ''))

    def e_initlist(self, e, st):
        tu = self.fr.tu
        t = tu.type(e['t'])
        k = tu.kind(e['t'])
        if t['k'] == 'record' and t.get('rec') == 'std::array':
            # std::array aggregate: {{...}}
            cs = e['c']
            if len(cs) == 1 and cs[0]['k'] == 'initlist':
                return self.coerce_elems(self.ev(cs[0], st), k, t, tu)
            if not cs:
                return self.default_of(tu, e['t'])
            return self.ev(cs[0], st)
        if t['k'] == 'carray':
            xs = [self.coerce(self.ev(x, st), tu, t['elem']) for x in e['c']]
            n = t.get('n')
            while n is not None and len(xs) < n:
                xs.append(self.default_of(tu, t['elem']))
            return c.elems(k, xs)
        if t['k'] == 'record' and k == 'o':
            if not e['c'] and 'fields' not in tu.decls.get(t.get('recid'), {}):
                return self.default_of(tu, e['t'])
            obj = self.default_rec(tu, t['recid'], st)
            names = [n for n, v in obj.a[1]]
            vals = list(obj.a[1])
            ftypes = self.fieldtypes(tu, t['recid'])
            for n, x in enumerate(e['c']):
                if n < len(vals):
                    ft = ftypes[n]
                    if tu.type(ft).get('ref'):
                        vals[n] = (names[n], self.lv(x, st))
                    else:
                        vals[n] = (names[n], self.coerce(self.ev(x, st), tu, ft))
            return rec(obj.a[0], vals)
        if len(e['c']) == 1:
            return self.coerce(self.ev(e['c'][0], st), tu, e['t'])
        if not e['c']:
            return self.default_of(tu, e['t'])
        raise Unsupported('initialiser list')

    def coerce_elems(self, v, k, t, tu):
        if v.op == 'elems':
            n = t['targs'][1]['int'] if isinstance(t['targs'][1], dict) else None
            xs = list(v.a[0])
            while n is not None and len(xs) < n:
                xs.append(self.default_of(tu, t['targs'][0]))
            return c.elems(k, xs)
        return v

    def fieldtypes(self, tu, recid):
        out = []

        def go(r):
            d = tu.decls[r]
            for b in d.get('bases', []):
                bt = tu.type(b)
                if bt.get('recid') is not None and 'fields' in tu.decls.get(bt['recid'], {}):
                    go(bt['recid'])
            for f in d.get('fields', ()):
                out.append(f['t'])
        if recid is not None and recid in tu.decls:
            go(recid)
        return out

    def e_initlist_std(self, e, st):
        v = self.ev(e['c'][0], st)
        tu = self.fr.tu
        k = tu.kind(e['t'])
        if v.op == 'elems':
            return c.elems(k, v.a[0])
        return v

    def l_initlist_std(self, e, st):
        return self.alloc(st, self.e_initlist_std(e, st), 'initializer list', self.fr)

    def e_lambda(self, e, st):
        tu = self.fr.tu
        fr = self.fr
        fields = []
        for cp in e['caps']:
            if cp.get('this'):
                fields.append(('this', fr.this))
                continue
            d = cp['d']
            if cp.get('byref'):
                if cp.get('initcap') and cp.get('init'):
                    fields.append(('r%d' % d, self.lv(cp['init'], st)))
                else:
                    p = fr.env.get(d)
                    if p is None:
                        p = self.globalvar(d, st)
                    fields.append(('r%d' % d, p))
            else:
                if cp.get('init'):
                    v = self.ev(cp['init'], st)
                else:
                    p = fr.env.get(d)
                    if p is None:
                        p = self.globalvar(d, st)
                    v = self.read(st, p)
                fields.append(('c%d' % d, v))
        return rec('lambda@%d:%d' % (tu.idx, e['rec']), fields)

    def e_cond(self, e, st):
        if e.get('lv'):
            return self.read(st, self.l_cond(e, st))
        return self._cond(e, st, self.ev)

    def l_cond(self, e, st):
        return self._cond(e, st, self.lv)

    def _cond(self, e, st, f):
        cv = self.cond(e['c'][0], st)
        d = self.decide(st, cv)
        if d is True:
            return f(e['c'][1], st)
        if d is False:
            return f(e['c'][2], st)
        s1 = st.fork(cv)
        s2 = st.fork(not_(cv))
        outs = []
        for s, x in ((s1, e['c'][1]), (s2, e['c'][2])):
            try:
                G.facts = s.facts
                v = f(x, s)
                if v.k != 'o' and f == self.ev:
                    v = self.coerce(v, self.fr.tu, e['t'])
                outs.append((s, v))
            except Dead:
                pass
        m, v = self.merge_vals(outs)
        if m is None:
            raise Dead()
        st.store, st.facts = m.store, m.facts
        G.facts = st.facts
        return v

    def e_index(self, e, st):
        return self.read(st, self.l_index(e, st))

    def l_index(self, e, st):
        b = self.ev(e['c'][0], st)
        i = self.ev(e['c'][1], st)
        if b.op == 'P' and i.op != 'P':
            b, i = i, b
        if b.k[0] == 's':
            # array value (not decayed)
            b = self.lv(e['c'][0], st)
            b = self.pproj(b, ('i', ZERO))
        p = self.ptradd(b, i)
        self.check_elem(p, st)
        return p

    def ptradd(self, p, d):
        if p.op == 'ptr' and p.a[1] and p.a[1][-1][0] == 'i':
            return ptr(p.a[0], p.a[1][:-1] + (('i', c.padd(p.a[1][-1][1], d)),))
        if p.op == 'ite':
            return ite(p.a[0], self.ptradd(p.a[1], d), self.ptradd(p.a[2], d))
        if p.op == 'ptr' and not d.d:
            return p
        return top('pointer arithmetic')

    def check_elem(self, p, st):
        """an element pointer is about to be dereferenced"""
        if p.op == 'ptr' and p.a[1] and p.a[1][-1][0] == 'i':
            cont = self.read(st, ptr(p.a[0], p.a[1][:-1]))
            idx = p.a[1][-1][1]
            self.bounds(st, cont, idx)
        elif p.op == 'ite':
            d = self.decide(st, p.a[0])
            if d is True:
                self.check_elem(p.a[1], st)
            elif d is False:
                self.check_elem(p.a[2], st)

    def bounds(self, st, cont, idx, kind='bounds'):
        if not self.rec:
            return
        if istop(cont) or istop(idx):
            return
        G.facts = st.facts
        n = c.len_(cont)
        ok = and_(ge0(idx), lt(idx, n))
        self.require(st, ok, kind, 'index %s, length %s' % (short(idx), short(n)))

    def e_new(self, e, st):
        tu = self.fr.tu
        t = tu.type(e['at'])
        if e.get('array'):
            k = tu.kind(e['at'])
            if k not in ('i', 'r', 'b'):
                raise Unsupported('new[] of objects')
            n = self.num(self.ev(e['size'], st))
            m = c.cint(n)
            if m is not None and 0 <= m <= 512:
                ev = self.default_of(tu, e['at'], uninit=not e.get('c'))
                v = c.elems('s' + k, [ev] * m)
            else:
                v = c.fresh('new', 's' + k, n)
            return ptr(self.newheap(st, v), (('i', ZERO),))
        cs = e.get('c') or []
        if cs:
            v = self.ev(cs[0], st)
        else:
            v = self.default_of(tu, e['at'])
        p = self.alloc(st, v, 'heap')
        self.heap = getattr(self, 'heap', {})
        return p

    def e_delete(self, e, st):
        p = self.ev(e['c'][0], st)
        if e.get('array') and p.op == 'ptr' and len(p.a[1]) == 1 and p.a[1][0][0] == 'i':
            self.require(st, c.eq(p.a[1][0][1], ZERO), 'badfree', 'delete[] of a pointer into an array')
            if p.a[0] not in st.store:
                self.event('doublefree', st, TRUE)
            st.store.pop(p.a[0], None)
        elif p.op == 'ptr' and not p.a[1]:
            if p.a[0] not in st.store:
                self.event('doublefree', st, TRUE)
                return UNIT
            pt = self.fr.tu.type(e['c'][0]['t'])
            pt = self.fr.tu.type(pt['pointee']) if pt.get('pointee') is not None else None
            if pt is not None and pt['k'] == 'record' and pt.get('recid') is not None \
                    and not (pt.get('rec') or '').startswith('std::'):
                self.destroy_rec(st, p, self.fr.tu, pt)
            st.store.pop(p.a[0], None)
        elif p.op == 'ite' or p.op == 'top':
            self.unsup('delete of unknown pointer')
        return UNIT

    def e_throw(self, e, st):
        tu = self.fr.tu
        if e.get('tt', -1) == -1:
            self.throw(st, getattr(self, 'curexc', None) or '?')
        t = tu.type(e['tt'])
        self.throw(st, t['u'])

    # unary, binary
    def e_un(self, e, st):
        op = e['op']
        a = e['c'][0]
        if op in ('++', '--', 'post++', 'post--'):
            p = self.lv(a, st)
            v = self.read(st, p)
            d = ONE if '++' in op else C(-1)
            if v.op == 'P':
                nv = c.padd(v, d)
                t = self.fr.tu.type(a['t'])
                if d is not ONE and t['k'] == 'uint':
                    nv = self.wrap_unsigned(nv, t, st)
            else:
                nv = self.ptradd(v, d)
            self.write(st, p, nv)
            return v if op.startswith('post') else nv
        if op == '*':
            return self.read(st, self.l_un(e, st))
        if op == '&':
            return self.lv(a, st)
        v = self.ev(a, st)
        if op == '!':
            return not_(self.tobool(v))
        if op == '-':
            v = self.num(v)
            r = c.pneg(v)
            t = self.fr.tu.type(e['t'])
            if t['k'] == 'uint':
                r = self.wrap_unsigned(r, t, st)
            return r
        if op == '+':
            return self.num(v)
        if op == '~':
            return numtop('~', 'i')
        raise Unsupported('unary ' + op)

    def l_un(self, e, st):
        op = e['op']
        if op == '*':
            p = self.ev(e['c'][0], st)
            p = self.deref(p, st)
            self.check_elem(p, st)
            return p
        if op in ('++', '--'):
            self.e_un(e, st)
            return self.lv(e['c'][0], st)
        return self.alloc(st, self.e_un(e, st), 'temporary', self.fr)

    def num(self, v):
        if v.op == 'P':
            return v
        if v.k == 'b':
            return ind(v)
        if v.op == 'top':
            return numtop(v.a[0])
        if v.k in ('i', 'r'):
            return A(v)
        return numtop('number expected: ' + v.op)

    def wrap_unsigned(self, p, t, st):
        G.facts = st.facts
        if c.isconst(p):
            v = c.cval(p)
            return C(v % (1 << t['bits'])) if v.__class__ is int else p
        if st.facts.prove_ge(p):
            return p
        return ite(ge0(p), p, c.padd(p, C(1 << t['bits'])))

    def e_bin(self, e, st):
        op = e['op']
        a, b = e['c']
        tu = self.fr.tu
        if op == ',':
            self.ev(a, st, discard=True)
            return self.ev(b, st)
        if op in ('&&', '||'):
            x = self.tobool(self.ev(a, st))
            d = self.decide(st, x)
            if d is not None:
                if d == (op == '||'):
                    return c.B(d)
                return self.tobool(self.ev(b, st))
            s1 = st.fork(x if op == '&&' else not_(x))
            s2 = st.fork(not_(x) if op == '&&' else x)
            outs = []
            try:
                G.facts = s1.facts
                y = self.tobool(self.ev(b, s1))
                outs.append((s1, y))
            except Dead:
                y = None
            outs.append((s2, FALSE if op == '&&' else TRUE))
            if y is not None and s1.store == st.store and lits_since(s1.facts, s2.facts if False else lca(s1.facts, s2.facts)) == \
                    [x if op == '&&' else not_(x)]:
                # no side effect: plain conjunction
                G.facts = st.facts
                return and_(x, y) if op == '&&' else or_(x, y)
            m, v = self.merge_vals(outs)
            st.store, st.facts = m.store, m.facts
            G.facts = st.facts
            return v
        if op == '=':
            # right side first (C++17)
            v = self.ev(b, st)
            p = self.lv(a, st)
            v = self.coerce(v, tu, a['t'])
            self.write(st, p, v)
            return v
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            y = self.ev(b, st)
            p = self.lv(a, st)
            x = self.read(st, p)
            if x.op in ('ptr', 'ite') and x.k == 'o':
                v = self.ptradd(x, self.num(y) if op == '+=' else c.pneg(self.num(y)))
            else:
                at_ = tu.type(a['t'])
                bt = tu.type(b['t'])
                # computation type: double if one is
                ct = at_ if not (bt['k'] == 'float' and at_['k'] != 'float') else bt
                v = self.arith(op[:-1], x, y, ct, st)
                if ct is not at_:
                    v = self.cast_num(v, ct, at_, st)
            self.write(st, p, v)
            return v
        x = self.ev(a, st)
        y = self.ev(b, st)
        G.facts = st.facts
        if op in ('==', '!=', '<', '>', '<=', '>='):
            return self.compare(op, x, y, st)
        if x.k == 'o' and x.op in ('ptr', 'ite', 'null') and y.op == 'P':
            return self.ptradd(x, y if op == '+' else c.pneg(y))
        if y.k == 'o' and y.op in ('ptr', 'ite') and x.op == 'P':
            return self.ptradd(y, x)
        if x.op == 'ptr' and y.op == 'ptr' and op == '-':
            return self.ptrdiff(x, y)
        return self.arith(op, x, y, tu.type(e['t']), st)

    def l_bin(self, e, st):
        op = e['op']
        if op == ',':
            self.ev(e['c'][0], st, discard=True)
            return self.lv(e['c'][1], st)
        if op.endswith('=') and op not in ('==', '!=', '<=', '>='):
            self.e_bin(e, st)
            rec0 = self.rec
            self.rec = False
            try:
                return self.lv(e['c'][0], st)
            finally:
                self.rec = rec0
        return self.alloc(st, self.e_bin(e, st), 'temporary', self.fr)

    def ptrdiff(self, x, y):
        if x.op == 'ptr' and y.op == 'ptr' and x.a[0] == y.a[0] and x.a[1] and y.a[1] and \
                x.a[1][:-1] == y.a[1][:-1] and x.a[1][-1][0] == 'i' and y.a[1][-1][0] == 'i':
            return c.psub(x.a[1][-1][1], y.a[1][-1][1])
        if x.op == 'ite':
            return ite(x.a[0], self.ptrdiff(x.a[1], y), self.ptrdiff(x.a[2], y))
        if y.op == 'ite':
            return ite(y.a[0], self.ptrdiff(x, y.a[1]), self.ptrdiff(x, y.a[2]))
        return numtop('pointer difference', 'i')

    def compare(self, op, x, y, st):
        if x.op == 'P' or y.op == 'P' or (x.k == 'b' and y.k == 'b' and op not in ('==', '!=')):
            x, y = self.num(x), self.num(y)
            if c.has_nan(x) or c.has_nan(y):
                return TRUE if op == '!=' else FALSE
            if op == '==':
                return eq(x, y)
            if op == '!=':
                return not_(eq(x, y))
            if op == '<':
                return lt(x, y)
            if op == '>':
                return lt(y, x)
            if op == '<=':
                return le(x, y)
            return le(y, x)
        if op in ('==', '!='):
            if x.op == 'top' or y.op == 'top':
                return _mk('top', 'b', 'compare')
            r = eq(x, y)
            return r if op == '==' else not_(r)
        # pointers into one array
        if self._ptrlike(x) and self._ptrlike(y):
            d = self.ptrdiff(x, y)
            return self.compare(op, d, ZERO, st)
        if x.k[0] == 's' and y.k[0] == 's':
            if op == '<':
                return c._mk('uf', 'b', 'seqless', (x, y))
            if op == '>':
                return c._mk('uf', 'b', 'seqless', (y, x))
            if op == '<=':
                return not_(c._mk('uf', 'b', 'seqless', (y, x)))
            return not_(c._mk('uf', 'b', 'seqless', (x, y)))
        return _mk('top', 'b', 'compare')

    def arith(self, op, x, y, t, st):
        x, y = self.num(x), self.num(y)
        G.facts = st.facts
        if t['k'] == 'float' and (c.has_nan(x) or c.has_nan(y)):
            return c.A(c.NANSYM)
        if op == '+':
            r = c.padd(x, y)
        elif op == '-':
            r = c.psub(x, y)
        elif op == '*':
            r = c.pmul(x, y)
        elif op == '/':
            if t['k'] == 'float':
                return c.pdiv(x, y)
            self.require(st, not_(eq0(y)), 'divzero', 'divisor %s' % short(y))
            return c.idiv(x, y)
        elif op == '%':
            self.require(st, not_(eq0(y)), 'divzero', 'divisor %s' % short(y))
            return c.imod(x, y)
        elif op in ('<<', '>>') and c.cint(y) is not None:
            f = 1 << c.cint(y)
            return c.pscale(x, f) if op == '<<' else c.idiv(x, C(f))
        elif op in ('&', '|', '^') and c.cint(x) is not None and c.cint(y) is not None:
            a, b = c.cint(x), c.cint(y)
            return C(a & b if op == '&' else a | b if op == '|' else a ^ b)
        elif op == '&' and c.cint(y) is not None and (c.cint(y) & (c.cint(y) + 1)) == 0:
            return c.imod(x, C(c.cint(y) + 1))
        elif op in ('&', '|', '^', '<<', '>>'):
            return c.uf('bit' + op, 'i', x, y)
        else:
            raise Unsupported('operator ' + op)
        if t['k'] == 'uint' and op == '-':
            r = self.wrap_unsigned(r, t, st)
        elif t['k'] == 'uint' and op in ('+', '*') and c.isconst(r) and c.cval(r) >= (1 << t['bits']):
            r = C(c.cval(r) % (1 << t['bits']))
        elif t['k'] == 'uint' and op in '+*' and r.d and any(abs(v) >= (1 << 31) for v in r.d.values()):
            r = self.rewrap(r, t, st)
        return r

    def rewrap(self, r, t, st):
        """a sum that contains the 2^n of an earlier wrapped subtraction"""
        m = 1 << t['bits']
        G.facts = st.facts
        d = st.facts.decide(lt(r, C(m)))
        if d is True:
            return r
        low = c.psub(r, C(m))
        return ite(lt(r, C(m)), r, low)

    def e_cast(self, e, st):
        ck = e['ck']
        x = e['c'][0]
        tu = self.fr.tu
        if ck == 'ArrayToPointerDecay':
            if x['k'] == 'str':
                return self.pproj(self.l_str(x, st), ('i', ZERO))
            return self.pproj(self.lv(x, st), ('i', ZERO))
        if ck in ('ToVoid',):
            self.ev(x, st, discard=True)
            return UNIT
        if ck in ('DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'BitCast', 'NoOp', 'Dynamic'):
            if e.get('lv'):
                return self.read(st, self.lv(x, st))
            return self.ev(x, st)
        v = self.ev(x, st)
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.tobool(v)
        if ck in ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'BooleanToSignedIntegral'):
            return self.cast_num(v, tu.type(x['t']), tu.type(e['t']), st)
        if ck == 'NullToPointer':
            return NULL
        if ck in ('LValueBitCast', 'PointerToIntegral', 'IntegralToPointer'):
            return kindtop(tu.kind(e['t']), ck)
        return v

    def l_cast(self, e, st):
        return self.lv(e['c'][0], st)

    def cast_num(self, v, ft, tt, st):
        v = self.num(v) if v.k != 'b' or tt['k'] != 'bool' else v
        if tt['k'] == 'bool':
            return self.tobool(v)
        G.facts = st.facts
        if tt['k'] in ('int', 'uint'):
            if ft['k'] == 'float':
                if c.has_nan(v):
                    self.event('convert', st, TRUE, 'not a number to integer')
                    return numtop('not a number', 'i')
                v = c.trunc_(v)
                if tt['k'] == 'uint' and not c.isconst(v) and not st.facts.prove_ge(v):
                    self.event('convert', st, not_(ge0(v)), 'negative value to unsigned')
                if tt['bits'] <= 16:
                    return self.narrow(v, tt, st)
                return v
            if tt['k'] == 'uint' and ft['k'] != 'uint':
                if ft['k'] == 'bool':
                    return v
                if tt['bits'] < ft['bits'] and tt['bits'] <= 16 and not c.isconst(v):
                    return self.narrow(v, tt, st)
                return self.wrap_unsigned(v, tt, st)
            if tt['bits'] < ft['bits'] and c.isconst(v):
                m = c.cval(v) % (1 << tt['bits'])
                if tt['k'] == 'int' and m >= (1 << (tt['bits'] - 1)):
                    m -= 1 << tt['bits']
                return C(m)
            if tt['bits'] < ft['bits'] and any(abs(x) >= (1 << 31) for x in v.d.values()) and tt['k'] == 'uint':
                # a wrapped 64 bit subtraction cut down
                return c.pscale(self.reduce_mod(v, tt, st), 1)
            if tt['k'] == 'int' and ft['k'] == 'uint' and any(abs(x) >= (1 << 31) for x in v.d.values()):
                return self.to_signed(v, tt, st)
            if tt['bits'] < ft['bits'] and tt['bits'] <= 16 and (tt['bits'] > 8 or tt['k'] == 'uint'):
                return self.narrow(v, tt, st)
            return v
        if tt['k'] == 'float' and tt.get('bits') == 32:
            if c.isconst(v):
                import struct
                f = float(c.cval(v))
                g = struct.unpack('f', struct.pack('f', f))[0]
                if g == f:
                    return v
            if ft['k'] == 'float' and ft.get('bits') != 32:
                return c.uf('float32', 'r', v)
        return v

    def narrow(self, v, tt, st):
        """what is left of an integer in 8 or 16 bits"""
        m = 1 << tt['bits']
        h = 0 if tt['k'] == 'uint' else m // 2
        if st.facts.prove_ge(c.padd(v, C(h))) and st.facts.prove_ge(c.psub(C(m - 1 - h), v)):
            return v
        w = c.padd(v, C(h))
        if st.facts.prove_ge(w):
            return c.psub(c.imod(w, C(m)), C(h))
        r = c.imod(w, C(m))
        return c.psub(ite(ge0(r), r, c.padd(r, C(m))), C(h))

    def reduce_mod(self, v, tt, st):
        m = 1 << tt['bits']
        a = c._argind(v)
        if a is not None:
            r = c.lifted(lambda p: self.reduce_mod(p, tt, st), v)
            if r is not None:
                return r
        k = v.d.get((), 0)
        if k.__class__ is int and abs(k) >= m // 2:
            w = c.padd(c.psub(v, C(k)), C(k % m if k % m < m // 2 else k % m - m))
            return self.wrap_unsigned(w, tt, st)
        return v

    def to_signed(self, v, tt, st):
        m = 1 << tt['bits']
        a = c._argind(v)
        if a is not None:
            r = c.lifted(lambda p: self.to_signed(p, tt, st), v)
            if r is not None:
                return r
        k = v.d.get((), 0)
        if k.__class__ is int and k >= m // 2:
            k2 = k % m
            if k2 >= m // 2:
                k2 -= m
            return c.padd(c.psub(v, C(k)), C(k2))
        return v

    def e_construct(self, e, st):
        return self.construct(e, st)

    # -- calls ------------------------------------------------------------
    def e_call(self, e, st):
        v = self.docall(e, st)
        if e.get('lv'):
            return self.read(st, v) if self._ptrlike(v) else v
        return v

    def l_call(self, e, st):
        v = self.docall(e, st)
        if e.get('lv') and self._ptrlike(v):
            return v
        return self.alloc(st, v, 'temporary', self.fr)

    def docall(self, e, st):
        tu = self.fr.tu
        line = e.get('l') or self.line
        self.line = line
        es = e['c']
        if e.get('fn') is None:
            # call through a pointer or object
            fv = self.ev(e['callee'], st)
            args = [self.lv(x, st) if x.get('lv') else self.ev(x, st) for x in es]
            return self.invoke(fv, args, st)
        fid = e['fn']
        d = tu.decls[fid]
        if d.get('sys'):
            r = self.std.call(self, e, st, d)
            self.line = line
            return r
        f = self.prog.lookup(tu, fid)
        name = d['name']
        this = None
        args = es
        if e.get('selfarg'):
            o = es[0]
            args = es[1:]
            if e.get('arrow'):
                this = self.deref(self.ev(o, st), st)
            else:
                this = self.lv(o, st)
            if d.get('virtual') and not e.get('qualified'):
                return self.virtual(f, d, tu, this, args, st)
        elif d.get('method') and not d.get('staticm') and e.get('op'):
            this = self.lv(es[0], st)
            args = es[1:]
        if f is None:
            return self.external(e, d, this, args, st)
        if f.decl.get('special') in ('copyassign', 'moveassign') and (f.decl.get('defaulted') or f.j.get('body') is None):
            v = self.ev(args[0], st)
            self.write(st, this, v)
            return this
        env = None
        if d.get('lambdaop'):
            env, this = self.closure_env(this, st)
        avals = self.args(f, args, st)
        r = self.call_fn(f, st, this, avals, env=env)
        self.line = line
        return r

    def closure_env(self, this, st):
        v = self.read(st, this)
        env = {}
        th = None
        if v.op == 'rec':
            for n, x in v.a[1]:
                if n == 'this':
                    th = x
                elif n[0] == 'r':
                    env[int(n[1:])] = x
                elif n[0] == 'c':
                    env[int(n[1:])] = self.pproj(this, ('f', n))
        return env, th

    def virtual(self, f, d, tu, this, args, st):
        obj = self.read(st, this)
        if this.op == 'ite':
            # dispatch per target
            cnd = this.a[0]
            dd = self.decide(st, cnd)
            if dd is True:
                return self.virtual(f, d, tu, this.a[1], args, st)
            if dd is False:
                return self.virtual(f, d, tu, this.a[2], args, st)
            outs = []
            for p, z in ((this.a[1], st.fork(cnd)), (this.a[2], st.fork(not_(cnd)))):
                try:
                    G.facts = z.facts
                    outs.append((z, self.virtual(f, d, tu, p, args, z)))
                except Dead:
                    pass
            m, v = self.merge_vals(outs)
            if m is None:
                raise Dead()
            st.store, st.facts = m.store, m.facts
            return v
        target = None
        if obj.op == 'rec':
            target = self.find_override(obj.a[0], d)
        if target is None:
            target = f
        if target is None:
            self.unsup('virtual call %s' % d['qname'])
            raise Unsupported('virtual call')
        avals = self.args(target, args, st)
        if target.decl.get('special') or target.decl.get('dtor'):
            return UNIT
        return self.call_fn(target, st, this, avals)

    def find_override(self, cls, d):
        """function of class cls (or its bases) that implements method d"""
        r = self.prog.records.get(cls)
        if r is None:
            return None
        tu, recid = r
        sig = self.sig(d)
        seen = []

        def go(tu, recid):
            rd = tu.decls.get(recid)
            if rd is None:
                return None
            for m in rd.get('methods', []):
                md = tu.decls.get(m)
                if md and md['name'] == d['name'] and len(md.get('ptypes', [])) == len(d.get('ptypes', [])) \
                        and md.get('constm') == d.get('constm'):
                    f = self.prog.lookup(tu, m)
                    if f is not None:
                        return f
            for b in rd.get('bases', []):
                bt = tu.type(b)
                if bt.get('recid') is not None:
                    # the record may be described in another unit
                    x = go(tu, bt['recid']) if 'methods' in tu.decls.get(bt['recid'], {}) else None
                    if x is None and bt['u'] in self.prog.records:
                        t2, r2 = self.prog.records[bt['u']]
                        if (t2, r2) != (tu, bt['recid']):
                            x = go(t2, r2)
                    if x is not None:
                        return x
            return None
        return go(tu, recid)

    def sig(self, d):
        return (d['name'], len(d.get('ptypes', [])))

    def external(self, e, d, this, args, st):
        """function without a body: intrinsic of the obligations or an
        uninterpreted function"""
        q = d['qname']
        h = self.intr.get(q) or self.intr.get(d['name']) if q.startswith('vx::') else None
        if h is not None:
            return h(self, e, d, args, st)
        tu = self.fr.tu
        if not self.is_driver(d.get('file', '')):
            if d.get('special') in ('copyassign', 'moveassign') and this is not None:
                v = self.ev(args[0], st)
                self.write(st, this, v)
                return this
            if d.get('dtor'):
                return UNIT
            self.unsup('no body for ' + q)
            rt = d.get('ret')
            raise Unsupported('no body for ' + q)
        vals = [self.ev(x, st) for x in args]
        return self.uninterpreted(d, tu, this, vals, st)

    def is_driver(self, f):
        return '/tool/drivers/' in f

    def uninterpreted(self, d, tu, this, vals, st):
        q = d['qname']
        vals2 = [ind(v) if v.k == 'b' else v for v in vals]
        if this is not None:
            tv = self.read(st, this)
            if tv.op == 'rec' and tv.a[1]:
                vals2 = [tv] + vals2
        # calls are recorded in order
        if not d['name'].startswith('pure_'):
            st.store[self.trace_root] = c.cat('so', st.store[self.trace_root],
                                              c.elems('so', [_mk('rec', 'o', 'call ' + q, tuple(('a%d' % i, v) for i, v in enumerate(vals2)))]))
        rt = d.get('ret')
        if rt is None or rt < 0:
            return UNIT
        t = tu.type(rt)
        if t['k'] == 'void':
            return UNIT
        k = tu.kind(rt)
        if k == 'o':
            raise Unsupported('uninterpreted result of ' + q)
        r = c.uf(q, k, *vals2)
        if t['k'] == 'uint':
            st.facts = st.facts.assume(ge0(r))
            G.facts = st.facts
        return r

    def invoke(self, fv, args, st):
        """call a callable value; args are pointers or values"""
        if self._ptrlike(fv) and fv.op == 'ptr':
            fv2 = self.read(st, fv)
            this = fv
        else:
            fv2 = fv
            this = None
        if fv2.op == 'rec' and fv2.a[0] == 'std::function':
            inner = recget(fv2, 'f')
            if inner is NULL:
                self.throw(st, 'std::bad_function_call')
            if this is not None:
                return self.invoke(self.pproj(this, ('f', 'f')), args, st)
            return self.invoke(inner, args, st)
        if fv2.op == 'rec' and fv2.a[0] == 'std::reference_wrapper':
            return self.invoke(recget(fv2, 'p'), args, st)
        if fv2.op == 'fnref':
            tu = self.prog.tus[fv2.a[0]]
            d = tu.decls[fv2.a[1]]
            f = self.prog.lookup(tu, fv2.a[1])
            if f is None:
                if d.get('sys'):
                    return self.std.call_named(self, d, args, st)
                if self.is_driver(d.get('file', '')):
                    return self.uninterpreted(d, tu, None, [self.asval(a, st) for a in args], st)
                raise Unsupported('no body for ' + d['qname'])
            return self.call_fn(f, st, None, self.adapt(f, args, st))
        if fv2.op == 'rec':
            r = self.std.invoke_builtin(self, fv2, args, st)
            if r is not None:
                return r
            cls = fv2.a[0]
            if this is None:
                this = self.alloc(st, fv2, 'temporary', self.fr)
            if cls.startswith('lambda@'):
                ti, ri = cls[7:].split(':')
                tu = self.prog.tus[int(ti)]
                recid = int(ri)
            else:
                r = self.prog.records.get(cls)
                if r is None:
                    raise Unsupported('call of ' + cls)
                tu, recid = r
            best = None
            for m in tu.callops.get(recid, []):
                f = self.prog.lookup(tu, m)
                d = tu.decls[m]
                if len(d.get('ptypes', [])) != len(args):
                    continue
                sc = self.match(tu, d, args, st)
                if sc is None:
                    continue
                if f is None and not self.is_driver(d.get('file', '')):
                    continue
                if best is None or sc > best[0]:
                    best = (sc, f, d)
            if best is None:
                raise Unsupported('no matching call operator')
            _, f, d = best
            if f is None:
                return self.uninterpreted(d, tu, this, [self.asval(a, st) for a in args], st)
            env = None
            th = this
            if d.get('lambdaop'):
                env, th = self.closure_env(this, st)
            return self.call_fn(f, st, th, self.adapt(f, args, st), env=env)
        if fv2.op == 'ptr' and this is not None:
            return self.invoke(fv2, args, st)
        if fv2.op == 'ite':
            cnd = fv2.a[0]
            d = self.decide(st, cnd)
            if d is not None:
                return self.invoke(fv2.a[1] if d else fv2.a[2], args, st)
        raise Unsupported('call of ' + fv2.op)

    def match(self, tu, d, args, st):
        sc = 0
        for pt, a in zip(d['ptypes'], args):
            v = self.asval(a, st)
            k = tu.kind(pt)
            vk = 'n' if v.op == 'P' else v.k
            if k in ('i', 'r', 'b'):
                if vk == 'n':
                    sc += 2 if (k == 'i') == c.isint(v) else 1
                elif vk == 'b':
                    sc += 2 if k == 'b' else 1
                else:
                    return None
            elif k[0] == 's':
                if v.k[0] != 's' and v.op != 'top':
                    return None
                sc += 2
            else:
                if vk in ('n', 'b') or v.k[0] == 's':
                    return None
                t = tu.type(pt)
                if v.op == 'rec' and t['k'] == 'record' and t.get('recid') is not None:
                    cn = self.prog.clsname(tu, t['recid']) if t['recid'] in tu.decls else t['u']
                    if cn != v.a[0] and not v.a[0].startswith('std::') and not t['u'].startswith('std::'):
                        return None
                sc += 1
        return sc

    def asval(self, a, st):
        return self.read(st, a) if a.op in ('ptr', 'ite') and self._ptrlike(a) else a

    def adapt(self, f, args, st):
        out = []
        for p, a in zip(f.j['params'], args):
            t = f.tu.type(p['t'])
            if t.get('ref'):
                out.append(a)
            else:
                v = a
                if t['k'] != 'ptr' or (a.op == 'ptr' and self.read(st, a).op in ('ptr', 'null')):
                    v = self.asval(a, st)
                out.append(self.coerce(v, f.tu, p['t']))
        return out


def cint_is(p, n):
    return c.cint(p) == n


def mu(k, n, i, es, hs, vs, pick):
    """general fold: the values es as functions of index i and the previous
    values hs, n times from vs"""
    m = {}
    body = _mk('tuple', 'o', tuple(es))
    lv = 1 + body.lv
    for q, h in enumerate(hs):
        m[h] = _mk('hv', h.k, q, lv)
        if h.k[0] == 's' and h.op == 'sym':
            # its length, where it is not the same all the time
            for a in c.atoms_of(h.a[1]):
                if a.op == 'sym' and a.a[0].startswith('lh') and h.a[1] is A(a):
                    m[a] = _mk('len', 'i', m[h])
    m[i] = c.bv(lv, 'i')
    b = c._replace(body, m)
    if b.lv + 1 != lv:
        pass
    t = _mk('mu', k, n, b, _mk('tuple', 'o', tuple(vs)), pick)
    return A(t) if k in ('i', 'r') else t


def istopin(t):
    return _hastop(t)


_ht = {}


def _hastop(t):
    r = _ht.get(t)
    if r is None:
        r = t.op == 'top' or any(_harg(x) for x in t.a)
        _ht[t] = r
    return r


def _harg(x):
    if x.__class__ is T:
        return _hastop(x)
    if x.__class__ is tuple:
        return any(_harg(y) for y in x)
    return False


c.istopin = istopin


def short(t):
    s = c.show(t)
    return s if len(s) < 160 else s[:157] + '...'
