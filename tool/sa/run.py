"""Runs the obligations of the driver units through the abstract interpreter."""
import os, sys, time, traceback
from . import core as c, prog as P, interp as ip
from . import evalt as ev
from .core import T, A, C, TRUE, FALSE, ZERO, ONE, G, _mk, ge0, lt, le, eq, not_, and_, or_, ite
from .facts import Facts
from . import facts as ff


class Claim:
    __slots__ = ('kind', 'label', 'facts', 'got', 'want', 'line', 'lost')

    def __init__(s, kind, label, facts, got, want, line, lost=False):
        s.kind = kind
        s.label = label
        s.facts = facts
        s.got = got
        s.want = want
        s.line = line
        s.lost = lost


def label(I, e):
    x = e
    while x['k'] == 'cast':
        x = x['c'][0]
    return x.get('v', '') if x['k'] == 'str' else ''


class Obligation:
    def __init__(s, name, fn):
        s.name = name
        s.fn = fn
        s.claims = []
        s.events = []
        s.unsupported = []
        s.error = None
        s.visited = set()
        s.sites = 0
        s.time = 0.0
        s.escaped = []


def install(I, ob):
    def nn(nm):
        return A(c.fresh(nm, 'i', 'nn'))

    def u32(I, e, d, args, st):
        return nn('n')

    def pos(I, e, d, args, st):
        v = nn('k')
        st.facts = st.facts.assume(ge0(c.padd(v, C(-1))))
        G.facts = st.facts
        return v

    def integer(I, e, d, args, st):
        return A(c.fresh('z', 'i'))

    def real(I, e, d, args, st):
        return A(c.fresh('x', 'r'))

    def nan(I, e, d, args, st):
        return A(c.NANSYM)

    def flag(I, e, d, args, st):
        return c.fresh('b', 'b')

    def array(I, e, d, args, st):
        n = I.num(I.ev(args[0], st))
        return c.fresh('a', 'sr', n)

    def counts(I, e, d, args, st):
        n = I.num(I.ev(args[0], st))
        return c.fresh('u', 'si', n)

    def name(I, e, d, args, st):
        return c.fresh('s', 'si', nn('len'))

    def assume(I, e, d, args, st):
        b = I.tobool(I.ev(args[0], st))
        st.facts = st.facts.assume(b)
        G.facts = st.facts
        if st.facts.bad:
            raise ip.Dead()
        return ip.UNIT

    def same(I, e, d, args, st):
        g = I.ev(args[1], st)
        w = I.ev(args[2], st)
        ob.claims.append(Claim('same', label(I, args[0]), st.facts, g, w, I.line, I.lost))
        return ip.UNIT

    def holds(I, e, d, args, st):
        b = I.tobool(I.ev(args[1], st))
        ob.claims.append(Claim('holds', label(I, args[0]), st.facts, b, TRUE, I.line, I.lost))
        return ip.UNIT

    def never(I, e, d, args, st):
        ob.claims.append(Claim('holds', label(I, args[0]), st.facts, FALSE, TRUE, I.line, I.lost))
        raise ip.Dead()

    def take(I, e, d, args, st):
        t = st.store[I.trace_root]
        st.store[I.trace_root] = c.empty('so')
        return _mk('rec', 'o', 'trace', (('calls', t),))
    I.intr = {'vx::' + f.__name__: f for f in (u32, pos, integer, real, nan, flag, array, counts, name, assume, same, holds, never, take)}


def obligations(prog):
    out = []
    for tu in prog.tus:
        if not tu.src.startswith(P.DRV):
            continue
        for f in tu.funcs.values():
            d = f.decl
            if f.file == tu.src and not d.get('tmpl') and not d.get('method') and not d.get('lambdaop') and not f.j['params'] and '::' in d['qname']:
                out.append((d['qname'], f))
    return out


def run_one(prog, name, fn, maxsteps=400000):
    ob = Obligation(name, fn)
    I = ip.Interp(prog)
    I.maxsteps = maxsteps
    install(I, ob)
    st = I.initial()
    t0 = time.time()
    ff.EFFORT[0] = 0
    try:
        I.call_fn(fn, st, None, [])
    except ip.Dead:
        pass
    except ip.Unsupported as x:
        ob.error = 'unsupported: %s (%s:%s)' % (x, I.fr.file if I.fr else '', I.line)
    except c.Budget as x:
        ob.error = 'budget: %s' % x
    except RecursionError:
        ob.error = 'recursion'
    except TimeoutError:
        ob.error = 'time limit'
    ob.time = time.time() - t0
    ob.effort = ff.EFFORT[0]
    ob.events = I.events
    ob.unsupported = I.unsupported
    ob.visited = I.visited
    ob.stateful = I.stateful
    ob.sites = I.sites
    ob.escaped = [(s, t) for s, t in I.throws[0] if not s.facts.bad]
    return ob


_unknown = {}


def unknown(t):
    """has a part the analysis lost; two such parts need not be equal"""
    r = _unknown.get(t)
    if r is None:
        r = _unknown[t] = any(x.op == 'top' for x in ev.subterms((t,)))
    return r


def alike(f, g, w, depth=0):
    """sequences that have the same length and, item by item, the same normal form"""
    g, w = f.simp(g), f.simp(w)
    if g is w:
        return True
    if depth > 2 or g.k[0] != 's' or w.k[0] != 's':
        return False
    G.facts = f
    n, m = f.simp(c.len_(g)), f.simp(c.len_(w))
    if n is not m and not f.decide(eq(n, m)):
        return False
    k = next((len(x.a[0]) for x in (g, w) if x.op == 'elems'), None)
    if k is not None:
        if k > 700:
            return False
        for i in range(k):
            G.facts = f
            if not alike(f, c.at(g, C(i)), c.at(w, C(i)), depth + 1):
                return False
        return True
    i = A(c.fresh('at', 'i', 'nn'))
    h = f.assume(ge0(c.psub(c.psub(n, C(1)), i)))
    if h.bad:
        return True
    G.facts = h
    return alike(h, c.at(g, i), c.at(w, i), depth + 1)


def judge(cl, seed=1):
    """(status, detail): ok / agree / undecided / differ"""
    g, w = cl.got, cl.want
    if unknown(g) or unknown(w):
        if not cl.lost and not unknown(w) and all(x.a[0] == 'uninit' for x in ev.subterms((g,)) if x.op == 'top'):
            x = ev.indeterminate(cl.facts, g, w, seed)
            if x is not None:
                return 'differ', x
        return 'undecided', 'part of it is not known'
    if g is w:
        return 'ok', None
    old = G.facts
    try:
        if cl.facts.simp(g) is cl.facts.simp(w):
            return 'ok', None
        if cl.kind == 'holds' and cl.facts.decide(g) is True:
            return 'ok', None
        if not cl.lost and alike(cl.facts, g, w):
            return 'ok', None
    except (c.Budget, RecursionError):
        pass
    finally:
        G.facts = old
    if cl.lost:
        return 'undecided', 'after a loop without a summary'
    r, x = ev.compare(cl.facts, g, w, seed)
    if r == 'differ':
        return 'differ', x
    if x >= 5:
        return 'agree', x
    return 'undecided', 'too few points (%d)' % x


def judge_event(e, seed=1):
    if e.lost:
        return 'undecided', None
    cond = e.cond
    if cond is None or cond.__class__ is not T:
        cond = TRUE
    w = ev.reachable(e.facts, cond, seed)
    return ('bad', w) if w is not None else ('undecided', None)


def report(prog, n, f, verbose):
    tot = {}
    out = []
    try:
        ob = run_one(prog, n, f)
    except Exception:
        return 'CRASH %s\n%s' % (n, ''.join(traceback.format_exc().splitlines(True)[-14:])), {'crash': 1}
    t0 = time.time()
    for u in ob.unsupported:
        out.append('   unsup %s' % (u,))
    for cl in ob.claims:
        r, x = judge(cl)
        tot[r] = tot.get(r, 0) + 1
        if r != 'ok' or verbose:
            out.append('   %s %s %s %s' % (r, cl.label, cl.line, x if r != 'differ' else ''))
            if r != 'ok' and verbose:
                out.append('      got  %s\n      want %s' % (str(cl.facts.simp(cl.got))[:1500], str(cl.facts.simp(cl.want))[:1500]))
                if verbose > 1:
                    out.append('      facts %s' % [str(x)[:200] for x in cl.facts.order])
            if r == 'differ':
                out.append('        %s\n        got %s\n        want %s' % (x.text(), ev.fmt(x.got), ev.fmt(x.want)))
    for e in ob.events:
        r, x = judge_event(e)
        tot['event ' + r] = tot.get('event ' + r, 0) + 1
        out.append('   EVENT %s %s %s %s %s %s %s' % (r, e.kind, e.file, e.line, str(e.cond)[:300], str(e.info)[:200], x.text() if x else ''))
    for s, t in ob.escaped:
        w = ev.reachable(s.facts, TRUE)
        out.append('   THROW %s %s %s' % (t, w.text() if w else 'unconfirmed', [str(x)[:int(os.environ.get("TL","100"))] for x in s.facts.order][-3:]))
        k = 'throw' if w else 'throw?'
        tot[k] = tot.get(k, 0) + 1
    if ob.error:
        tot['error'] = tot.get('error', 0) + 1
    head = '== %s E%d %.2f+%.2fs %s sites %d visited %d claims %d' % (n, ob.effort, ob.time, time.time() - t0, 'error: %s' % ob.error if ob.error else '', ob.sites, len(ob.visited), len(ob.claims))
    return '\n'.join([head] + out), tot


def child(arg):
    n, f, verbose, limit = arg
    import signal

    def ring(*a):
        raise TimeoutError()
    signal.signal(signal.SIGALRM, ring)
    signal.alarm(limit)
    try:
        return report(PROG, n, FN[n], verbose)
    except TimeoutError:
        return '== %s TIMEOUT\n%s' % (n, ''.join(traceback.format_exc().splitlines(True)[-12:]) if verbose else ''), {'timeout': 1}
    finally:
        signal.alarm(0)


if __name__ == '__main__':
    import multiprocessing as mp
    pats = sys.argv[2:]
    verbose = int(os.environ.get('V', '0'))
    drv = [os.path.join(P.DRV, x) for x in sys.argv[1].split(',')]
    t0 = time.time()
    ex = P.export_all(P.sources() + drv)
    PROG = P.Program(ex)
    FN = {n: f for n, f in obligations(PROG) if not pats or any(p in n for p in pats)}
    tot = {}
    t1 = time.time()
    sys.setrecursionlimit(20000)
    with mp.get_context('fork').Pool(int(os.environ.get('J', '8')), maxtasksperchild=1) as pool:
        for txt, t in pool.imap(child, [(n, None, verbose, int(os.environ.get('LIMIT', '60'))) for n in FN], 1):
            print(txt, flush=True)
            for k, v in t.items():
                tot[k] = tot.get(k, 0) + v
    print(tot, 'export %.1fs run %.1fs' % (t1 - t0, time.time() - t1))
