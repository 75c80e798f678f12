"""Rules over the exported syntax of the library (no execution).

A rule gets the whole program and returns
  {rule, summary, instances, ..., violations: [{key, what, at, path}]}.
Keys name constructs, not lines, so that a known finding survives unrelated edits."""
import os, re, subprocess, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
import headers
import misuse
from sa import prog as P

ASSIGN = {'=', '+=', '-=', '*=', '/=', '%=', '&=', '|=', '^=', '<<=', '>>='}
# member functions that hand out (a reference or iterator to) part of the object
ACCESS = {'operator[]', 'at', 'front', 'back', 'begin', 'end', 'cbegin', 'cend', 'rbegin', 'rend', 'crbegin', 'crend',
          'data', 'find', 'lower_bound', 'upper_bound', 'operator*', 'operator->', 'get', 'c_str', 'value', 'str'}
# algorithms that write through the iterators given to them (which arguments)
WRITES_THROUGH = {'sort': (0,), 'stable_sort': (0,), 'partial_sort': (0,), 'nth_element': (0,), 'reverse': (0,), 'rotate': (0,),
                  'shuffle': (0,), 'fill': (0,), 'fill_n': (0,), 'iota': (0,), 'generate': (0,), 'generate_n': (0,),
                  'remove': (0,), 'remove_if': (0,), 'unique': (0,), 'replace': (0,), 'replace_if': (0,), 'copy': (2,),
                  'copy_n': (2,), 'copy_if': (2,), 'move': (2,), 'transform': (2, 3), 'swap_ranges': (0, 2), 'partition': (0,),
                  'stable_partition': (0,), 'random_shuffle': (0,), 'partial_sum': (2,), 'exclusive_scan': (2,),
                  'inclusive_scan': (2,), 'push_heap': (0,), 'make_heap': (0,), 'memcpy': (0,), 'memset': (0,),
                  'memmove': (0,), 'iter_swap': (0, 1)}
NOT_REENTRANT = {'rand', 'srand', 'random', 'srandom', 'drand48', 'srand48', 'lrand48', 'strtok', 'localtime', 'gmtime',
                 'asctime', 'ctime', 'setlocale', 'setenv', 'putenv', 'tmpnam'}
SYNC = re.compile(r'^std::(__\w+::)?(atomic\w*|mutex|shared_mutex|recursive_mutex|timed_mutex|once_flag|condition_variable\w*)\b')
LOCKS = re.compile(r'^std::(lock_guard|unique_lock|scoped_lock|shared_lock)\b')


def short(f):
    return f[len(P.REPO) + 1:] if str(f).startswith(P.REPO + '/') else str(f)


def inrepo(f):
    return str(f).startswith(P.REPO + '/')


def subs(n):
    """direct children (expressions and statements)"""
    if isinstance(n, dict):
        for k, v in n.items():
            if k in ('caps',):
                for c in v:
                    if c.get('init'):
                        yield c['init']
                continue
            if isinstance(v, dict) and 'k' in v:
                yield v
            elif isinstance(v, list):
                for x in v:
                    if isinstance(x, dict):
                        if 'k' in x:
                            yield x
                        elif 'e' in x and isinstance(x['e'], dict):
                            yield x['e']


def walk(n):
    st = [n]
    while st:
        x = st.pop()
        if x is None:
            continue
        yield x
        st.extend(reversed(list(subs(x))))


def fn_roots(fn):
    out = []
    if fn.j.get('body'):
        out.append(fn.j['body'])
    for it in fn.j.get('inits') or []:
        if it.get('e'):
            out.append(it['e'])
    for p in fn.j['params']:
        if p.get('default'):
            out.append(p['default'])
    return out


def lib_fns(prog):
    """functions of the library, one per definition and instantiation"""
    seen = set()
    for t in prog.tus:
        for fn in t.funcs.values():
            if not inrepo(fn.file):
                continue
            m = fn.decl.get('mangled') if fn.decl.get('linkage') == 'external' or True else None
            key = (fn.file, fn.j.get('line'), fn.j.get('col'), m or fn.decl['qname'])
            if key in seen and '(lambda' not in fn.decl['qname'] and not fn.decl.get('lambda'):
                # the same function seen from another unit
                if m and 'anonymous' not in fn.decl['qname'] and 'lambda' not in str(m):
                    continue
            seen.add(key)
            yield fn


def at(fn, n=None):
    return '%s:%s' % (short(fn.file), (n or {}).get('l') or fn.j.get('line'))


def name_of(fn):
    q = fn.decl['qname']
    return re.sub(r'\(lambda at [^)]*\)', '(lambda)', re.sub(r'\(anonymous class\)', '(lambda)', q))


def callee(tu, e):
    if e.get('fn') is not None:
        return tu.decls.get(e['fn'])
    return None


def nonconst_ref(tu, tid):
    """a parameter or result through which the argument can be modified"""
    if not isinstance(tid, int) or tid < 0:
        return False
    t = tu.type(tid)
    if t.get('ref'):
        return not t.get('isconst', t.get('const'))
    return False


def tconst(tu, tid):
    t = tu.type(tid)
    return bool(t.get('const'))


def uniq(vs):
    out, seen = [], set()
    for v in vs:
        if v['key'] not in seen:
            seen.add(v['key'])
            out.append(v)
    return out


# ---------------------------------------------------------------- uses of an object

class Uses:
    """every use of a tracked variable in a function: read or changed"""

    def __init__(self, fn, tracked, on):
        self.fn = fn
        self.tu = fn.tu
        self.tracked = tracked      # decl ids
        self.on = on                # on(decl id, how, node)

    def run(self):
        for r in fn_roots(self.fn):
            self.visit(r, 'read')

    def visit(self, n, ctx):
        if n is None:
            return
        k = n['k']
        f = getattr(self, 'v_' + k, None)
        if f is not None:
            f(n, ctx)
        else:
            for x in subs(n):
                self.visit(x, 'read')

    def v_ref(self, n, ctx):
        if n['d'] in self.tracked and ctx != 'read':
            self.on(n['d'], ctx, n)

    def v_member(self, n, ctx):
        for x in n['c']:
            self.visit(x, ctx if not n.get('arrow') else 'read')

    def v_index(self, n, ctx):
        self.visit(n['c'][0], ctx)
        for x in n['c'][1:]:
            self.visit(x, 'read')

    def v_cast(self, n, ctx):
        for x in n['c']:
            self.visit(x, ctx)

    def v_cond(self, n, ctx):
        self.visit(n['c'][0], 'read')
        for x in n['c'][1:]:
            self.visit(x, ctx)

    def v_un(self, n, ctx):
        op = n['op']
        if '++' in op or '--' in op:
            ctx = 'changed by ' + op.replace('post', '')
        elif op == '&':
            ctx = ctx if ctx != 'read' else 'read'
        elif op != '*':
            ctx = 'read'
        self.visit(n['c'][0], ctx)

    def v_bin(self, n, ctx):
        if n['op'] in ASSIGN:
            self.visit(n['c'][0], 'assigned')
            self.visit(n['c'][1], 'read')
        elif n['op'] == ',':
            self.visit(n['c'][0], 'read')
            self.visit(n['c'][1], ctx)
        else:
            for x in n['c']:
                self.visit(x, 'read')

    def v_call(self, n, ctx):
        d = callee(self.tu, n)
        args = list(n['c'])
        if d is None:
            for x in args:
                self.visit(x, 'read')
            if n.get('callee'):
                self.visit(n['callee'], 'read')
            return
        if n.get('selfarg') and args:
            s = args.pop(0)
            nm = d['name']
            if d.get('kind') == 'fn' and (d.get('constm') or d.get('static')):
                self.visit(s, 'read')
            elif nm in ACCESS:
                self.visit(s, ctx)
            elif n.get('op') and not d.get('cls') and d.get('clsid') is None:
                # free operator: like any parameter
                args.insert(0, s)
            elif nm == 'operator()':
                self.visit(s, 'read')
            else:
                self.visit(s, 'changed by ' + nm)
        pts = d.get('ptypes') or []
        for i, x in enumerate(args):
            how = 'read'
            if i < len(pts):
                t = self.tu.type(pts[i])
                if t.get('ref') and not tconst(self.tu, pts[i]) and t.get('ref') != 'r':
                    how = 'passed to %s, which may change it' % d['name']
                    if d['name'] in ('forward', 'move', 'as_const', 'begin', 'end', 'cbegin', 'cend', 'size', 'get', 'addressof',
                                     'min', 'max', 'data', 'distance', 'ref', 'cref', 'forward_as_tuple', 'tie', 'make_pair',
                                     'make_tuple', 'for_each', 'invoke', 'apply'):
                        how = ctx
                elif t['k'] == 'ptr' and t.get('pointee') is not None and not tconst(self.tu, t['pointee']) \
                        and x['k'] == 'un' and x['op'] == '&':
                    how = 'passed to %s, which may change it' % d['name']
            if d.get('sys') and d['name'] in WRITES_THROUGH and i in WRITES_THROUGH[d['name']]:
                how = 'written by ' + d['name']
            self.visit(x, how)

    def v_construct(self, n, ctx):
        d = callee(self.tu, n)
        pts = (d or {}).get('ptypes') or []
        for i, x in enumerate(n['c']):
            how = 'read'
            if i < len(pts) and not n.get('elid'):
                t = self.tu.type(pts[i])
                if t.get('ref') and not tconst(self.tu, pts[i]) and t.get('ref') != 'r' and not (d or {}).get('special'):
                    how = 'read' if (d or {}).get('sys') else 'passed to a constructor, which may change it'
            self.visit(x, how)

    def v_return(self, n, ctx):
        e = n.get('e')
        if e is None:
            return
        rt = self.fn.decl.get('ret')
        how = 'read'
        if isinstance(rt, int) and rt >= 0:
            t = self.tu.type(rt)
            if t.get('ref') and not tconst(self.tu, rt):
                how = 'handed out as a modifiable reference'
            elif t['k'] == 'ptr' and t.get('pointee') is not None and not tconst(self.tu, t['pointee']):
                how = 'handed out as a modifiable reference'
        self.visit(e, how)

    def v_decl(self, n, ctx):
        for v in n['c']:
            if v['k'] == 'var':
                self.var(v)
            else:
                self.visit(v, 'read')

    def var(self, v):
        if v.get('init'):
            self.visit(v['init'], 'read')
        for b in v.get('bindings') or []:
            if b.get('init'):
                self.visit(b['init'], 'read')

    v_var = lambda self, n, ctx: self.var(n)

    def v_range(self, n, ctx):
        self.visit(n['range'], 'read')
        self.visit(n['body'], 'read')


def root_decl(n):
    """variable an lvalue expression is part of, or None"""
    while n is not None:
        k = n['k']
        if k == 'ref':
            return n['d']
        if k in ('member', 'index', 'cast') and n.get('c'):
            n = n['c'][0]
        elif k == 'un' and n['op'] in ('*', '&') and n.get('c'):
            n = n['c'][0]
        elif k == 'call' and n.get('c') and (n.get('selfarg') or n.get('fn') is not None):
            n = n['c'][0]
        elif k == 'construct' and len(n.get('c', [])) == 1:
            n = n['c'][0]
        else:
            return None
    return None


def with_aliases(fn, tracked):
    """tracked variables plus the local modifiable references to them"""
    out = set(tracked)
    names = {}
    while True:
        n = len(out)
        for r in fn_roots(fn):
            for x in walk(r):
                vs = []
                if x['k'] == 'decl':
                    vs = [v for v in x['c'] if v['k'] == 'var']
                elif x['k'] == 'range':
                    v = dict(x['var'])
                    v['init'] = x['range']
                    vs = [v]
                elif x['k'] in ('if', 'while', 'for') and isinstance(x.get('var'), dict):
                    vs = [x['var']]
                for v in vs:
                    t = fn.tu.type(v['t'])
                    if v.get('init') and v['d'] not in out and \
                            (t.get('ref') and not tconst(fn.tu, v['t']) or
                             t['k'] == 'ptr' and t.get('pointee') is not None and not tconst(fn.tu, t['pointee']) or
                             'iterator' in t.get('u', '') and 'const_iterator' not in t.get('u', '')):
                        rd = root_decl(v['init'])
                        if rd in out:
                            out.add(v['d'])
                            names[v['d']] = names.get(rd, rd)
        if len(out) == n:
            return out, names


# ---------------------------------------------------------------- effects

def lambdas_in(fn, e, depth=0):
    """lambda nodes an expression may evaluate to"""
    out = []
    if e is None or depth > 6:
        return out
    k = e['k']
    if k == 'lambda':
        return [e]
    if k in ('cast', 'construct', 'initlist'):
        for x in e.get('c', []):
            out += lambdas_in(fn, x, depth + 1)
    elif k == 'call':
        d = callee(fn.tu, e)
        if d and d['name'] in ('move', 'forward', 'ref', 'cref', 'make_pair', 'make_tuple', 'as_const'):
            for x in e['c']:
                out += lambdas_in(fn, x, depth + 1)
    elif k == 'cond':
        for x in e['c'][1:]:
            out += lambdas_in(fn, x, depth + 1)
    elif k == 'ref':
        for r in fn_roots(fn):
            for x in walk(r):
                if x['k'] == 'decl':
                    for v in x['c']:
                        if v['k'] == 'var' and v['d'] == e['d'] and v.get('init'):
                            out += lambdas_in(fn, v['init'], depth + 1)
    return out


LAUNCH = {'async', 'thread', 'jthread', 'packaged_task', 'emplace_back', 'push_back', 'submit', 'post', 'enqueue'}


def launches(fn):
    """calls that start a job, with the loops around them"""
    out = []

    def go(n, loops):
        if n is None:
            return
        k = n['k']
        if k in ('for', 'while', 'do', 'range'):
            loops = loops + [n]
        if k in ('call', 'construct'):
            d = callee(fn.tu, n)
            if d is not None:
                q = d.get('qname', '')
                hit = q.startswith('std::async') or q.startswith('std::thread::thread') or q.startswith('std::jthread::jthread') \
                    or (d['name'] in ('emplace_back', 'push_back') and re.search(r'std::(j?thread)\b|packaged_task', str(d.get('cls', '')) + q))
                if not hit and d['name'] in ('emplace_back', 'push_back') and n.get('selfarg') and n['c']:
                    t = fn.tu.type(n['c'][0]['t']) if isinstance(n['c'][0].get('t'), int) else {}
                    hit = bool(re.search(r'std::vector<std::(j?thread|packaged_task)\b', t.get('u', '')))
                if hit:
                    for x in n['c']:
                        for lam in lambdas_in(fn, x):
                            out.append((n, lam, loops))
        for x in subs(n):
            go(x, loops)
    for r in fn_roots(fn):
        go(r, [])
    return out


def declared_in(n):
    s = set()
    for x in walk(n):
        if x['k'] == 'decl':
            for v in x['c']:
                if v['k'] == 'var':
                    s.add(v['d'])
                    for b in v.get('bindings') or []:
                        s.add(b['d'])
        if x['k'] == 'range':
            s.add(x['var']['d'])
            for b in x['var'].get('bindings') or []:
                s.add(b['d'])
    return s


def lambda_fns(prog, fn, lam):
    tu = fn.tu
    out = []
    r = lam.get('rec')
    for i in tu.callops.get(r, []):
        f = tu.funcs.get(i)
        if f is not None:
            out.append(f)
    if not out and lam.get('fn') is not None and lam['fn'] in tu.funcs:
        out.append(tu.funcs[lam['fn']])
    return out


_kept = {}


def kept(prog, tu, d):
    """how the value of a variable of static storage depends on earlier calls, or None"""
    key = (tu.idx, d)
    if key in _kept:
        return _kept[key]
    how = []
    for fn in tu.funcs.values():
        if not inrepo(fn.file):
            continue
        refs = False
        for r in fn_roots(fn):
            for x in walk(r):
                if x['k'] == 'ref' and x['d'] == d:
                    refs = True
                elif x['k'] == 'decl':
                    for v in x['c']:
                        if v['k'] == 'var' and v.get('static') and v['d'] == d and v.get('init'):
                            refs = True
                            for y in walk(v['init']):
                                yd = tu.decls.get(y['d'], {}) if y['k'] == 'ref' else {}
                                if y['k'] == 'this' or yd.get('kind') in ('param', 'local', 'binding') and \
                                        not is_const_local(fn, y['d']) and not inside_lambda_decl(v['init'], y['d']):
                                    how.append('what the first call of %s computed from %s' % (
                                        name_of(fn), yd.get('name', 'its object')))
        if refs and not tu.decls[d].get('isconst'):
            tr, names = with_aliases(fn, [d])

            def on(x, h, n, fn=fn):
                how.append('%s (%s)' % (h, at(fn, n)))
            Uses(fn, tr, on).run()
    _kept[key] = how[0] if how else None
    return _kept[key]


def effects(prog, tier):
    vs = []
    n_fn = n_static = n_field = n_use = n_launch = n_cast = 0
    seen_static = set()
    # variables of static storage
    per = {}
    for t in prog.tus:
        s = per[t.idx] = {}
        for i, d in t.decls.items():
            if d['kind'] in ('global', 'staticlocal') and inrepo(d.get('file', '')):
                ty = t.type(d['t']) if isinstance(d.get('t'), int) and d['t'] >= 0 else {}
                if SYNC.match(ty.get('u', '')):
                    continue
                seen_static.add((d['qname'], d.get('file'), d.get('line')))
                if d.get('isconst') and not ty.get('ref'):
                    continue
                s[i] = d
            elif d['kind'] == 'record' and d.get('repo') and not d.get('lambda') and inrepo(d.get('file', '')):
                for f in d.get('fields', []):
                    n_field += 1
                    if f.get('mutable'):
                        ty = t.type(f['t'])
                        if SYNC.match(ty.get('u', '')):
                            continue
                        if short(d['file']) == 'include/dataframe/functional/utils/memoize.h':
                            continue    # the documented purpose of a memoized function
                        vs.append({'key': '%s::%s' % (d['qname'], f['name']),
                                   'what': 'the mutable member %s lets reading operations of %s change shared state' % (f['name'], d['qname']),
                                   'at': '%s:%s' % (short(d['file']), d.get('line'))})
    done = set()
    for fn in lib_fns(prog):
        n_fn += 1
        tu = fn.tu
        tr, names = with_aliases(fn, per[tu.idx].keys())

        def on(d, how, n, fn=fn, tu=tu, names=names):
            dd = per[tu.idx].get(names.get(d, d))
            if dd is None:
                return
            vs.append({'key': '%s in %s' % (dd['qname'], name_of(fn)),
                       'what': '%s keeps state between calls: the %svariable %s is %s' % (
                           name_of(fn), 'static ' if dd['kind'] == 'staticlocal' else '', dd['qname'], how),
                       'at': at(fn, n)})
        Uses(fn, tr, on).run()
        params = {p['id'] for p in fn.j['params']}
        for r in fn_roots(fn):
            for x in walk(r):
                k = x['k']
                if k == 'ref' and x['d'] in per[tu.idx]:
                    n_use += 1
                if k == 'decl':
                    for v in x['c']:
                        if v['k'] == 'var' and v.get('static') and v.get('init'):
                            # initialised once: must not depend on the first call
                            dep = None
                            for y in walk(v['init']):
                                if y['k'] == 'this':
                                    dep = 'this object'
                                elif y['k'] == 'ref':
                                    yd = tu.decls.get(y['d'], {})
                                    if yd.get('kind') in ('param', 'local', 'binding') and not yd.get('isconst_eval') and \
                                            not is_const_local(fn, y['d']):
                                        if not inside_lambda_decl(v['init'], y['d']):
                                            dep = yd.get('name')
                            if dep:
                                vs.append({'key': 'static %s in %s' % (v['name'], name_of(fn)),
                                           'what': 'the static variable %s keeps what the first call computed from %s' % (v['name'], dep),
                                           'at': at(fn, x)})
                if k in ('call',):
                    d = callee(tu, x)
                    if d and d.get('sys') and d['name'] in NOT_REENTRANT and d.get('clsid') is None:
                        if d['name'] in ('random',) and not d['qname'] in ('random', 'std::random'):
                            continue
                        vs.append({'key': '%s calls %s' % (name_of(fn), d['name']),
                                   'what': '%s uses the process-wide state of %s' % (name_of(fn), d['name']), 'at': at(fn, x)})
        # const removed and then written
        n_cast += const_casts(fn, vs)
        # functions that carry state
        for lam in returned_lambdas(fn):
            if lam.get('mutable'):
                vs.append({'key': 'mutable lambda of ' + name_of(fn),
                           'what': 'the function returned by %s changes its own captured state at every call' % name_of(fn),
                           'at': at(fn, lam)})
        # jobs
        for call, lam, loops in launches(fn):
            n_launch += 1
            vs += job(prog, fn, call, lam, loops)
    vs = uniq(vs)
    return {'rule': 'effects', 'instances': n_fn,
            'summary': '%d functions, %d variables of static storage, %d uses of the modifiable ones, %d members, %d job launches: %d violations' % (
                n_fn, len(seen_static), n_use, n_field, n_launch, len(vs)),
            'functions': n_fn, 'static_variables': len(seen_static), 'uses_of_modifiable_statics': n_use,
            'data_members': n_field, 'job_launches': n_launch, 'const_casts': n_cast,
            'rule_applied': 'no function of the library changes a variable of static storage, a mutable member or (through a cast) a '
                            'constant object; no static is initialised from the first call; jobs started in parallel capture nothing by '
                            'reference that another job or the launching loop changes',
            'violations': vs}


def is_const_local(fn, d):
    """a constexpr-like local: const arithmetic with a constant initialiser"""
    for r in fn_roots(fn):
        for x in walk(r):
            if x['k'] == 'decl':
                for v in x['c']:
                    if v['k'] == 'var' and v['d'] == d:
                        dd = fn.tu.decls.get(d, {})
                        return bool(dd.get('isconst')) and v.get('init') and \
                            all(y['k'] in ('int', 'float', 'cast', 'un', 'bin') for y in walk(v['init']))
    return False


def inside_lambda_decl(e, d):
    """declared within the expression itself (a lambda's own variables)"""
    return d in declared_in(e)


def const_casts(fn, vs):
    tu = fn.tu
    n = 0

    class CC(Uses):
        def v_cast(self, x, ctx):
            nonlocal n
            if x.get('cls') in ('CXXConstCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr', 'CXXReinterpretCastExpr') \
                    and x.get('c') and self.removes(x):
                n += 1
                if ctx != 'read':
                    vs.append({'key': 'cast in ' + name_of(fn),
                               'what': '%s casts const away and the object is %s' % (name_of(fn), ctx), 'at': at(fn, x)})
            Uses.v_cast(self, x, ctx)

        def removes(self, x):
            a = x['c'][0]
            if not isinstance(a.get('t'), int) or not isinstance(x.get('t'), int):
                return False
            s, d = tu.type(a['t']), tu.type(x['t'])
            if s['k'] == 'ptr' and d['k'] == 'ptr' and s.get('pointee') is not None and d.get('pointee') is not None:
                return tconst(tu, s['pointee']) and not tconst(tu, d['pointee'])
            if d['k'] == 'ptr':
                return False
            return bool(a.get('lv') or a['k'] == 'call') and tconst(tu, a['t']) and not tconst(tu, x['t']) and \
                x.get('cls') in ('CXXConstCastExpr', 'CStyleCastExpr', 'CXXReinterpretCastExpr') and \
                x.get('ck') in ('NoOp', 'LValueBitCast', None)

        def v_decl(self, x, ctx):
            # a modifiable reference or pointer made by such a cast
            for v in x['c']:
                if v['k'] == 'var' and v.get('init'):
                    t = tu.type(v['t'])
                    mod = (t.get('ref') and not tconst(tu, v['t'])) or \
                        (t['k'] == 'ptr' and t.get('pointee') is not None and not tconst(tu, t['pointee']))
                    if mod:
                        hits = []
                        Uses(fn, {v['d']}, lambda d, how, y: hits.append((how, y))).run()
                        self.visit(v['init'], hits[0][0] if hits else 'read')
                        continue
                self.visit(v, 'read')
    CC(fn, set(), lambda *a: None).run()
    return n


def returned_lambdas(fn):
    out = []
    for r in fn_roots(fn):
        for x in walk(r):
            if x['k'] == 'return' and x.get('e'):
                out += lambdas_in(fn, x['e'])
    return out


def job(prog, fn, call, lam, loops):
    vs = []
    tu = fn.tu
    refs = {c['d'] for c in lam['caps'] if c.get('byref') and not c.get('this') and 'd' in c}
    inner = set()
    loopvars = set()
    for lp in loops:
        inner |= declared_in(lp)
        for x in (lp.get('init'),):
            if x is not None:
                for y in walk(x):
                    if y['k'] == 'decl':
                        loopvars |= {v['d'] for v in y['c'] if v['k'] == 'var'}

    def nm(d):
        return tu.decls.get(d, {}).get('name', '?')
    for d in sorted(refs & (inner | loopvars)):
        # declared anew or changed at each turn while the jobs run
        if refers_outside(fn, loops, d):
            continue
        vs.append({'key': 'job of %s captures %s' % (name_of(fn), nm(d)),
                   'what': 'a job started by %s refers to %s, which the launching loop changes or ends while the job runs' % (name_of(fn), nm(d)),
                   'at': at(fn, lam)})
    rest = refs - inner - loopvars
    bodies = lambda_fns(prog, fn, lam)
    for b in bodies:
        locked = any(x['k'] == 'decl' and any(v['k'] == 'var' and LOCKS.match(b.tu.type(v['t']).get('u', '')) for v in x['c'])
                     for r in fn_roots(b) for x in walk(r))
        if locked:
            continue
        hits = []

        class W(Uses):
            own = False

            def v_call(self, n, ctx):
                d = callee(self.tu, n)
                if d and d['name'] in ('operator[]', 'at') and ctx != 'read':
                    # an element of its own
                    for x in n['c'][1:]:
                        self.visit(x, 'read')
                    s = n['c'][0]
                    ids = {y['d'] for x in n['c'][1:] for y in walk(x) if y['k'] == 'ref'}
                    if not ids or ids & rest:
                        self.visit(s, ctx)
                    return
                Uses.v_call(self, n, ctx)

            def v_index(self, n, ctx):
                ids = {y['d'] for x in n['c'][1:] for y in walk(x) if y['k'] == 'ref'}
                self.visit(n['c'][0], ctx if not ids or ids & rest else 'read')
        W(b, rest, lambda d, how, n: hits.append((d, how, n))).run()
        for d, how, n in hits:
            ty = tu.type(tu.decls[d]['t']) if isinstance(tu.decls.get(d, {}).get('t'), int) else {}
            if SYNC.match(ty.get('u', '')):
                continue
            vs.append({'key': 'job of %s shares %s' % (name_of(fn), nm(d)),
                       'what': 'jobs started by %s share %s, which is %s without a lock' % (name_of(fn), nm(d), how), 'at': at(b, n)})
    # changed by the loop that launches
    for lp in loops:
        hits = []
        u = Uses(fn, rest, lambda d, how, n: hits.append((d, how, n)))
        body = lp.get('body')
        u.visit(body, 'read')
        for x in (lp.get('inc'), lp.get('cond')):
            if x is not None:
                u.visit(x, 'read')
        for d, how, n in hits:
            ty = tu.type(tu.decls[d]['t']) if isinstance(tu.decls.get(d, {}).get('t'), int) else {}
            if SYNC.match(ty.get('u', '')):
                continue
            vs.append({'key': 'job of %s and its loop share %s' % (name_of(fn), nm(d)),
                       'what': 'the loop that starts the jobs of %s changes %s, which they read' % (name_of(fn), nm(d)), 'at': at(fn, n)})
    return vs


def refers_outside(fn, loops, d):
    """a reference variable of the loop bound to something that outlives it and is this turn's own element"""
    for lp in loops:
        if lp['k'] == 'range' and lp['var']['d'] == d and fn.tu.type(lp['var']['t']).get('ref'):
            return root_decl(lp['range']) is not None
        for x in walk(lp):
            if x['k'] == 'decl':
                for v in x['c']:
                    if v['k'] == 'var' and v['d'] == d and fn.tu.type(v['t']).get('ref'):
                        rd = root_decl(v['init']) if v.get('init') else None
                        return rd is not None and rd not in declared_in(lp)
    return False



# ---------------------------------------------------------------- streams

GLOBAL_STREAMS = {'std::cout', 'std::cerr', 'std::clog', 'std::wcout', 'std::wcerr', 'std::wclog', 'stdout', 'stderr'}
OUTPUT_FNS = {'printf', 'puts', 'putchar', 'perror', 'vprintf', 'println', 'fputs_unlocked', 'psignal'}
PRINT_FILES = ('include/dataframe/functional/utils/print.h', 'include/dataframe/utils/utils.h')
PRINT_NAMES = re.compile(r'(^|_)(print\w*|dump\w*|info|warn\w*|error|log|trace|debug)$', re.I)


def is_printing(fn):
    """a function whose purpose is to print"""
    if short(fn.file) in PRINT_FILES:
        return True
    n = fn.decl['name']
    return bool(PRINT_NAMES.search(n))


def streams(prog, tier):
    vs = []
    sinks = {}          # key -> [(fn, node, what)]
    calls = {}
    fns = {}
    n_ins = n_ref = n_call = 0

    def key(tu, d, i):
        return d.get('mangled') or (tu.idx, i)
    for fn in lib_fns(prog):
        tu = fn.tu
        k = key(tu, fn.decl, fn.id)
        fns[k] = fn
        for r in fn_roots(fn):
            for x in walk(r):
                if x['k'] == 'ref':
                    d = tu.decls.get(x['d'])
                    if d is not None and d['kind'] in ('global',) and d.get('qname') in GLOBAL_STREAMS:
                        n_ref += 1
                        sinks.setdefault(k, []).append((fn, x, d['qname']))
                elif x['k'] == 'call':
                    d = callee(tu, x)
                    if d is None:
                        continue
                    n_call += 1
                    if d.get('sys') and d['name'] in OUTPUT_FNS and d.get('clsid') is None:
                        sinks.setdefault(k, []).append((fn, x, d['name']))
                    if d['name'] != 'operator()':       # what a callback does is its owner's business
                        calls.setdefault(k, []).append((key(tu, d, x['fn']), x))
                    if d['name'] == 'operator<<' and inrepo(d.get('file', '')):
                        n_ins += 1
                elif x['k'] == 'construct':
                    d = callee(tu, x)
                    if d is not None:
                        calls.setdefault(k, []).append((key(tu, d, x['fn']), x))
                elif x['k'] == 'lambda':
                    for f in lambda_fns(prog, fn, x):
                        calls.setdefault(k, []).append((key(tu, f.decl, f.id), x))
    # who reaches a process-wide stream
    reach = {k: 'writes to ' + v[0][2] for k, v in sinks.items()}
    via = {k: (v[0][0], v[0][1]) for k, v in sinks.items()}
    changed = True
    while changed:
        changed = False
        for k, cs in calls.items():
            if k in reach:
                continue
            for c, x in cs:
                if c in reach and c in fns:
                    reach[k] = 'calls %s, which %s' % (name_of(fns[c]), reach[c])
                    via[k] = (fns[k], x)
                    changed = True
                    break
    inserters = 0
    for k, fn in fns.items():
        ins = fn.decl['name'] == 'operator<<' and fn.j['params'] and \
            'basic_ostream' in fn.tu.type(fn.j['params'][0]['t']).get('u', '')
        if ins:
            inserters += 1
            p0 = fn.j['params'][0]['id']
            for r in fn_roots(fn):
                for x in walk(r):
                    if x['k'] == 'return' and x.get('e'):
                        rd = root_decl(x['e'])
                        if rd is not None and rd != p0 and fn.tu.decls.get(rd, {}).get('kind') in ('global', 'staticlocal'):
                            vs.append({'key': 'result of ' + name_of(fn), 'what': 'the inserter does not return the stream it was given',
                                       'at': at(fn, x)})
        if k in reach and (ins or not (is_printing(fn) or lambda_of_printing(fn))):
            f, x = via[k]
            # blame the first function that is not meant to print
            if any(c in reach and c in fns and not is_printing(fns[c]) and not lambda_of_printing(fns[c]) for c, y in calls.get(k, [])) \
                    and k not in sinks:
                continue
            vs.append({'key': name_of(fn), 'what': '%s %s' % (name_of(fn), reach[k]), 'at': at(f, x)})
    vs = uniq(vs)
    return {'rule': 'streams', 'instances': len(fns),
            'summary': '%d functions, %d calls, %d uses of process-wide streams, %d stream inserters: %d violations' % (
                len(fns), n_call, n_ref, inserters, len(vs)),
            'functions': len(fns), 'calls': n_call, 'uses_of_process_streams': n_ref, 'inserters': inserters,
            'printing_functions': sorted({name_of(f) for k, f in fns.items() if k in reach and is_printing(f)}),
            'rule_applied': 'only functions that exist to print reach std::cout, std::cerr, std::clog or the C output functions '
                            '(transitively over the call graph); operator<< reaches none of them and returns its stream',
            'violations': vs}


def lambda_of_printing(fn):
    """operator() of a lambda written inside a printing function"""
    q = fn.decl['qname']
    if fn.decl['name'] != 'operator()':
        return False
    head = re.sub(r'\([^()]*\)', '', q)
    parts = [x for x in re.split(r'::', head) if x]
    return any(PRINT_NAMES.search(x) for x in parts) or short(fn.file) in PRINT_FILES


# ---------------------------------------------------------------- lifetime

VIEW = re.compile(r'^(std::(basic_string_view|span|reference_wrapper|initializer_list)\b|__gnu_cxx::__normal_iterator|std::_Rb_tree_(const_)?iterator)')
PASS = {'forward', 'move', 'as_const', 'min', 'max', 'clamp', 'get', 'ref', 'cref', 'addressof', 'begin', 'end', 'cbegin', 'cend',
        'data', 'next', 'prev', 'find', 'find_if', 'lower_bound', 'upper_bound', 'min_element', 'max_element', 'static_pointer_cast',
        'operator<<', 'operator>>'}


def viewlike(t):
    return bool(t.get('ref')) or t['k'] == 'ptr' or bool(VIEW.match(t.get('u', '')))


class Life:
    def __init__(self, prog):
        self.prog = prog
        self.summary = {}       # function -> parameter positions (-1: this) its result refers to
        self.n_ret = 0

    def roots(self, fn, e, depth=0, seen=()):
        """what the object behind a reference/pointer/view expression belongs to:
        ('local', d) ('param', d) ('temp', node) ('this',) ('static',) ('?',)"""
        tu = fn.tu
        if e is None or depth > 20:
            return [('?',)]
        k = e['k']
        if e.get('tmp'):
            t = tu.type(e['t']) if isinstance(e.get('t'), int) else {'k': '?', 'u': ''}
            if t.get('rec') in ('std::tuple', 'std::pair') and any(isinstance(b, int) and tu.type(b).get('ref')
                                                                  for a in t.get('targs') or [] for b in (a if isinstance(a, list) else [a])):
                return [('?',)]     # of references: what it refers to is elsewhere
            if not viewlike(t):
                return [('temp', e)]
        if k == 'ref':
            d = tu.decls.get(e['d'], {})
            kind = d.get('kind')
            if kind in ('global', 'staticlocal', 'fn'):
                return [('static',)]
            if kind == 'local' and e['d'] in self.statics(fn):
                return [('static',)]
            t = tu.type(d['t']) if isinstance(d.get('t'), int) and d['t'] >= 0 else {'k': '?'}
            isview = viewlike(t)
            if kind == 'param':
                return [('refparam', e['d'])] if isview else [('param', e['d'])]
            if kind in ('local', 'binding'):
                if isview:
                    if e['d'] in seen:
                        return [('?',)]
                    out = []
                    for i in self.inits(fn, e['d']):
                        out += self.roots(fn, i, depth + 1, seen + (e['d'],))
                    return out or [('?',)]
                if e['d'] in self.captured(fn):
                    return [('?',)]
                return [('local', e['d'])]
            return [('?',)]
        if k == 'this':
            return [('this',)]
        if k == 'str':
            return [('static',)]
        if k == 'member':
            d = tu.decls.get(e['d'], {}) if e.get('d') is not None else {}
            t = tu.type(e['t']) if isinstance(e.get('t'), int) else {'k': '?'}
            if e.get('arrow'):
                return self.value_roots(fn, e['c'][0], depth + 1, seen) if e.get('c') else [('?',)]
            ft = tu.type(d['t']) if isinstance(d.get('t'), int) and d['t'] >= 0 else {'k': '?'}
            if viewlike(ft):
                return [('?',)]
            return self.roots(fn, e['c'][0], depth + 1, seen)
        if k == 'index':
            return self.roots(fn, e['c'][0], depth + 1, seen)
        if k == 'un':
            if e['op'] == '*':
                return self.value_roots(fn, e['c'][0], depth + 1, seen)
            if e['op'] == '&':
                return self.roots(fn, e['c'][0], depth + 1, seen)
            return self.roots(fn, e['c'][0], depth + 1, seen)
        if k == 'cast':
            return self.roots(fn, e['c'][0], depth + 1, seen)
        if k == 'cond':
            return self.roots(fn, e['c'][1], depth + 1, seen) + self.roots(fn, e['c'][2], depth + 1, seen)
        if k == 'bin':
            if e['op'] == ',':
                return self.roots(fn, e['c'][1], depth + 1, seen)
            if e['op'] in ASSIGN:
                return self.roots(fn, e['c'][0], depth + 1, seen)
            return self.roots(fn, e['c'][0], depth + 1, seen)
        if k == 'call':
            return self.call_roots(fn, e, depth, seen)
        if k == 'construct':
            t = tu.type(e['t']) if isinstance(e.get('t'), int) else {'k': '?', 'u': ''}
            if VIEW.match(t.get('u', '')) and e.get('c'):
                return self.roots(fn, e['c'][0], depth + 1, seen)
            return [('temp', e)]
        if k in ('initlist', 'lambda'):
            return [('temp', e)]
        return [('?',)]

    value_roots = roots

    def call_roots(self, fn, e, depth, seen):
        tu = fn.tu
        d = callee(tu, e)
        if d is None:
            return [('?',)]
        rt = tu.type(d['ret']) if isinstance(d.get('ret'), int) and d['ret'] >= 0 else {'k': '?', 'u': ''}
        isv = viewlike(rt)
        if not isv:
            return [('temp', e)]
        args = e['c']
        if d.get('sys'):
            if e.get('selfarg') and args:
                if d['name'] in ('operator->', 'operator*', 'get') and re.search(r'(_ptr|iterator|optional_ref)', str(d.get('qname'))):
                    return self.value_roots(fn, args[0], depth + 1, seen) if 'iterator' in str(d.get('qname')) else [('?',)]
                return self.roots(fn, args[0], depth + 1, seen)
            if d['name'] in PASS:
                out = []
                for x in args[:1] if d['name'] not in ('min', 'max', 'clamp') else args:
                    out += self.roots(fn, x, depth + 1, seen)
                return out
            return [('?',)]
        s = self.summary.get(d.get('mangled'))
        if s is None:
            return [('?',)]
        out = []
        for i in s:
            if i == -1:
                if e.get('selfarg') and args:
                    out += self.roots(fn, args[0], depth + 1, seen)
            else:
                j = i + (1 if e.get('selfarg') and d.get('clsid') is not None else 0)
                if j < len(args):
                    out += self.roots(fn, args[j], depth + 1, seen)
        return out or [('?',)]

    def index(self, fn):
        z = getattr(self, '_ix', None)
        if z is None:
            z = self._ix = {}
        k = id(fn)
        if k not in z:
            inits, stat = {}, set()
            for r in fn_roots(fn):
                for x in walk(r):
                    vs = []
                    if x['k'] == 'decl':
                        vs = [v for v in x['c'] if v['k'] == 'var']
                    elif x['k'] == 'range':
                        v = dict(x['var'])
                        v['init'] = x['range']
                        vs = [v]
                    elif x['k'] in ('if', 'while') and isinstance(x.get('var'), dict):
                        vs = [x['var']]
                    elif x['k'] == 'bin' and x['op'] == '=' and x['c'][0]['k'] == 'ref':
                        inits.setdefault(x['c'][0]['d'], []).append(x['c'][1])
                    for v in vs:
                        if v.get('static'):
                            stat.add(v['d'])
                        if v.get('init'):
                            inits.setdefault(v['d'], []).append(v['init'])
                            for b in v.get('bindings') or []:
                                inits.setdefault(b['d'], []).append(v['init'])
            z[k] = (inits, stat, declared_all(fn))
        return z[k]

    def inits(self, fn, d):
        return self.index(fn)[0].get(d, [])

    def statics(self, fn):
        return self.index(fn)[1]

    def captured(self, fn):
        """variables of an enclosing function, seen from a lambda's body"""
        own = self.index(fn)[2]
        return _NotIn(own)

    def returns(self, fn):
        for r in fn_roots(fn):
            for x in walk(r):
                if x['k'] == 'return' and x.get('e'):
                    yield x

    def summarise(self, fns):
        for turn in range(4):
            ch = False
            for fn in fns:
                rt = fn.decl.get('ret')
                if not isinstance(rt, int) or rt < 0 or not viewlike(fn.tu.type(rt)):
                    continue
                m = fn.decl.get('mangled')
                s = set(self.summary.get(m, ()))
                pos = {p['id']: i for i, p in enumerate(fn.j['params'])}
                for x in self.returns(fn):
                    for z in self.roots(fn, x['e']):
                        if z[0] == 'this':
                            s.add(-1)
                        elif z[0] == 'refparam' and z[1] in pos:
                            s.add(pos[z[1]])
                if s != set(self.summary.get(m, ())) or m not in self.summary:
                    self.summary[m] = tuple(sorted(s))
                    ch = True
            if not ch:
                break


class _NotIn:
    def __init__(self, s):
        self.s = s

    def __contains__(self, x):
        return x not in self.s


def declared_all(fn):
    s = set()
    for r in fn_roots(fn):
        s |= declared_in(r)
    for r in fn_roots(fn):
        for x in walk(r):
            if x['k'] in ('if', 'while', 'for') and isinstance(x.get('var'), dict):
                s.add(x['var']['d'])
    return s


def lifetime(prog, tier):
    vs = []
    fns = list(lib_fns(prog))
    L = Life(prog)
    L.summarise(fns)
    n_ret = n_bind = n_fields = n_types = n_caps = 0

    def nm(fn, d):
        return fn.tu.decls.get(d, {}).get('name', '?')
    # 1. results that refer to something that ends with the call
    for fn in fns:
        tu = fn.tu
        rt = fn.decl.get('ret')
        if isinstance(rt, int) and rt >= 0 and viewlike(tu.type(rt)) and 'initializer_list' not in tu.type(rt).get('u', ''):
            t = tu.type(rt)
            for x in L.returns(fn):
                n_ret += 1
                for z in L.roots(fn, x['e']):
                    bad = None
                    if z[0] == 'local':
                        bad = 'the local variable %s' % nm(fn, z[1])
                    elif z[0] == 'param':
                        bad = 'its own copy of the argument %s' % nm(fn, z[1])
                    elif z[0] == 'temp' and t['k'] != 'ptr':
                        bad = 'a temporary'
                    elif z[0] == 'refparam' and t.get('ref') and fn.decl.get('clsid') is None:
                        p = next((p for p in fn.j['params'] if p['id'] == z[1]), None)
                        if p is not None:
                            pt = tu.type(p['t'])
                            if pt.get('ref') == 'l' and tconst(tu, p['t']) and not fn.decl['name'].startswith('operator'):
                                bad = 'the argument %s, which may be a temporary' % p['name']
                    if bad:
                        vs.append({'key': 'result of %s' % name_of(fn), 'what': '%s returns a reference to %s' % (name_of(fn), bad), 'at': at(fn, x)})
        # 2. references bound to part of a temporary
        for r in fn_roots(fn):
            for x in walk(r):
                lst = []
                if x['k'] == 'decl':
                    lst = [v for v in x['c'] if v['k'] == 'var' and v.get('init')]
                elif x['k'] == 'range':
                    v = dict(x['var'])
                    v['init'] = x['range']
                    v['range'] = True
                    lst = [v]
                for v in lst:
                    t = tu.type(v['t'])
                    if not v.get('range') and not viewlike(t) or 'initializer_list' in t.get('u', ''):
                        continue
                    n_bind += 1
                    e = peel(v['init'])
                    if e['k'] != 'call' and not VIEW.match(t.get('u', '')) and t['k'] != 'ptr':
                        continue        # directly bound: the temporary lives on
                    if e['k'] == 'call':
                        d = callee(tu, e)
                        rtt = tu.type(d['ret']) if d and isinstance(d.get('ret'), int) and d['ret'] >= 0 else None
                        if rtt is None or not viewlike(rtt):
                            if t.get('ref') or v.get('range'):
                                continue        # a value, which lives on
                    if any(z[0] == 'temp' for z in L.roots(fn, e)):
                        vs.append({'key': '%s in %s' % (v.get('name'), name_of(fn)),
                                   'what': '%s refers to part of a temporary that ends with its declaration' % v.get('name'), 'at': at(fn, x)})
    # 3. classes that keep references
    seen = set()
    for t in prog.tus:
        for i, d in t.decls.items():
            if d['kind'] != 'record' or not d.get('repo') or d.get('lambda') or not inrepo(d.get('file', '')):
                continue
            for f in d.get('fields', []):
                k = (d['qname'], f['name'])
                if k in seen:
                    continue
                seen.add(k)
                n_fields += 1
                ft = t.type(f['t'])
                why = None
                if ft.get('ref'):
                    why = 'a reference'
                elif VIEW.match(ft.get('u', '')):
                    why = 'a view'
                elif ft['k'] == 'ptr' and not function_pointer(t, ft):
                    why = None if owns(prog, t, i, f) else 'a pointer it does not own'
                elif ft['k'] == 'record' and pointer_list(t, ft):
                    why = None if owns(prog, t, i, f) else 'pointers it does not own'
                if why is None or '(' in d['qname'] or 'details' in d['qname'] or 'detail::' in d['qname']:
                    continue
                if ft.get('ref') and ft.get('rec') == 'df::Dataframe' and d['qname'].endswith('Manager'):
                    continue            # stated: the dataframe outlives its manager
                vs.append({'key': '%s::%s' % (re.sub(r'<.*>', '', d['qname']), f['name']),
                           'what': '%s keeps %s in its member %s' % (re.sub(r'<.*>', '<...>', d['qname']), why, f['name']),
                           'at': '%s:%s' % (short(d['file']), d.get('line'))})
    # 4. results that carry references inside
    caps = lambda_caps(prog)
    for fn in fns:
        tu = fn.tu
        rt = fn.decl.get('ret')
        if not isinstance(rt, int) or rt < 0:
            continue
        t = tu.type(rt)
        if t.get('ref') or t['k'] != 'record':
            continue
        n_types += 1
        if fn.decl.get('special'):
            continue
        w = embeds(prog, tu, rt, caps, set())
        if w and not (internal(fn) and w == 'tuple'):
            vs.append({'key': 'object made by %s' % name_of(fn), 'what': 'the object returned by %s holds %s' % (name_of(fn), w), 'at': at(fn)})
        for x in L.returns(fn):
            for lam in lambdas_in(fn, x['e']):
                n_caps += len(lam['caps'])
                for c in lam['caps']:
                    bad = None
                    if c.get('this'):
                        bad = 'the object it is called on' if not c.get('thiscopy') else None
                    elif c.get('byref'):
                        dd = tu.decls.get(c['d'], {})
                        bad = '%s by reference' % dd.get('name')
                    else:
                        dd = tu.decls.get(c.get('d'), {})
                        ct = tu.type(dd['t']) if isinstance(dd.get('t'), int) and dd['t'] >= 0 else {'k': '?', 'u': ''}
                        if (ct['k'] == 'ptr' and not function_pointer(tu, ct) or VIEW.match(ct.get('u', ''))):
                            src = c.get('init') or {'k': 'ref', 'd': c['d']}
                            if any(z[0] in ('local', 'param', 'temp', 'refparam', 'this') for z in L.roots(fn, src)):
                                bad = '%s, a pointer into data that may end before' % dd.get('name')
                    if bad:
                        vs.append({'key': 'function made by %s' % name_of(fn),
                                   'what': 'the function returned by %s captures %s' % (name_of(fn), bad), 'at': at(fn, lam)})
    vs = uniq(vs)
    return {'rule': 'lifetime', 'instances': n_ret + n_bind + n_fields + n_types,
            'summary': '%d functions, %d reference results, %d bindings, %d members, %d result types, %d captures: %d violations' % (
                len(fns), n_ret, n_bind, n_fields, n_types, n_caps, len(vs)),
            'functions': len(fns), 'returns_of_references': n_ret, 'reference_bindings': n_bind, 'data_members': n_fields,
            'result_types': n_types, 'captures_of_returned_functions': n_caps,
            'rule_applied': 'a reference, pointer, iterator or view that leaves a function is rooted neither in its locals, its value '
                            'parameters, temporaries nor in a constant reference parameter; classes and returned functions hold values; '
                            'no reference is bound to a part of a temporary',
            'violations': vs}


def peel(e):
    while e is not None and e['k'] in ('cast',) and e.get('c'):
        e = e['c'][0]
    return e


def internal(fn):
    return 'details' in fn.decl['qname'] or 'detail::' in fn.decl['qname']


def function_pointer(tu, t):
    return t.get('pointee') is not None and tu.type(t['pointee'])['k'] == 'fn'


def pointer_list(tu, t):
    if t.get('rec') in ('std::vector', 'std::array', 'std::list', 'std::deque', 'std::set', 'std::map', 'std::optional'):
        for a in t.get('targs') or []:
            if isinstance(a, int) and tu.type(a)['k'] == 'ptr' and not function_pointer(tu, tu.type(a)):
                return True
    return False


def owns(prog, tu, recid, field):
    """the class's destructor deletes what the member points to, in every unit where it is defined"""
    d = tu.decls[recid]
    cls = d['qname']
    for t in prog.tus:
        for fn in t.funcs.values():
            if fn.decl.get('dtor') and fn.decl['qname'].startswith(cls + '::~'):
                if any(x['k'] == 'delete' for f in [fn] + called(prog, fn) for r in fn_roots(f) for x in walk(r)):
                    return True
    return False


def called(prog, fn, depth=2):
    out = []
    if depth == 0:
        return out
    for r in fn_roots(fn):
        for x in walk(r):
            if x['k'] == 'call' and x.get('fn') is not None:
                f = prog.lookup(fn.tu, x['fn'])
                if f is not None and inrepo(f.file):
                    out.append(f)
                    out += called(prog, f, depth - 1)
            elif x['k'] == 'lambda':
                out += lambda_fns(prog, fn, x)
    return out


def lambda_caps(prog):
    """captures of every lambda of the library by (unit, class)"""
    out = {}
    for t in prog.tus:
        for fn in t.funcs.values():
            for r in fn_roots(fn):
                for x in walk(r):
                    if x['k'] == 'lambda':
                        out[(t.idx, x.get('rec'))] = (fn, x)
    return out


def embeds(prog, tu, tid, caps, seen):
    """what a value of this type refers to outside itself, or None"""
    t = tu.type(tid)
    if (tid in seen) or len(seen) > 60:
        return None
    seen.add(tid)
    if t.get('ref'):
        return 'a reference'
    if t['k'] != 'record':
        return None
    if t.get('rec') in ('std::tuple', 'std::pair', 'std::array', 'std::vector', 'std::optional', 'std::map', 'std::_Bind',
                        'std::unordered_map', 'std::variant', 'std::_Bind_front'):
        for a in t.get('targs') or []:
            for b in (a if isinstance(a, list) else [a]):
                if isinstance(b, int):
                    w = embeds(prog, tu, b, caps, seen)
                    if w:
                        return w
        return None
    if t.get('rec') == 'std::reference_wrapper':
        return 'a reference'
    rid = t.get('recid')
    if rid is None:
        return None
    if (tu.idx, rid) in caps:
        fn, lam = caps[(tu.idx, rid)]
        if not inrepo(fn.file):
            return None
        for c in lam['caps']:
            if c.get('this') and not c.get('thiscopy'):
                return 'a pointer to the object it came from'
            if c.get('byref'):
                return 'a reference to ' + str(tu.decls.get(c.get('d'), {}).get('name'))
            dd = tu.decls.get(c.get('d'), {})
            if isinstance(dd.get('t'), int) and dd['t'] >= 0:
                ct = tu.type(dd['t'])
                if ct['k'] == 'record' and not ct.get('ref'):
                    w = embeds(prog, tu, dd['t'], caps, seen)
                    if w:
                        return w
        return None
    d = tu.decls.get(rid, {})
    if not d.get('repo') or not inrepo(d.get('file', '')):
        return None
    if d['qname'].endswith('Manager'):
        return None
    for f in d.get('fields', []):
        ft = tu.type(f['t'])
        if ft.get('ref') or VIEW.match(ft.get('u', '')):
            return 'a reference (its member %s)' % f['name']
        w = embeds(prog, tu, f['t'], caps, seen)
        if w:
            return w
    return None


def ownership(prog, tier):
    """bases are destroyed through a virtual destructor; a class that deletes what it points to cannot be copied"""
    vs = []
    poly, owners = set(), set()
    for t in prog.tus:
        for i, d in t.decls.items():
            if d['kind'] != 'record' or not d.get('repo') or d.get('lambda') or not inrepo(d.get('file', '')) or 'fields' not in d:
                continue
            q = re.sub(r'<.*>', '<...>', d['qname'])
            if d.get('polymorphic'):
                poly.add(q)
                if not d.get('virtualdtor'):
                    vs.append({'key': q + ' destructor', 'what': 'deleting an object through a %s does not run its own destructor' % q,
                               'at': '%s:%s' % (short(d['file']), d.get('line'))})
            for f in d['fields']:
                ft = t.type(f['t'])
                if (ft['k'] == 'ptr' and not function_pointer(t, ft) or pointer_list(t, ft)) and owns(prog, t, i, f):
                    owners.add(q)
                    if not d.get('copyctor_deleted') and not written_copy(t, d):
                        vs.append({'key': q + ' copy', 'what': 'a copy of %s deletes the same objects again' % q,
                                   'at': '%s:%s' % (short(d['file']), d.get('line'))})
    vs = uniq(vs)
    return {'rule': 'ownership', 'instances': len(poly) + len(owners),
            'summary': '%d polymorphic classes, %d owning classes: %d violations' % (len(poly), len(owners), len(vs)),
            'polymorphic_classes': sorted(poly), 'owning_classes': sorted(owners),
            'rule_applied': 'every polymorphic class has a virtual destructor; a class whose destructor deletes what a member points to '
                            'is not copied member by member', 'violations': vs}


def written_copy(tu, d):
    for m in d.get('methods', []):
        md = tu.decls.get(m, {})
        if md.get('special') == 'copyctor' and not md.get('defaulted') and not md.get('implicit'):
            return True
    return False


RULES = {'effects': effects, 'streams': streams, 'lifetime': lifetime, 'ownership': ownership, 'headers': headers.check, 'misuse': misuse.check}
