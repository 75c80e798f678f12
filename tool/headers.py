"""Public headers: each by itself, with all others before or after it, and what a header may define."""
import os, re, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

from sa import prog as P

CXX = ['g++', '-std=gnu++20', '-fsyntax-only', '-w', '-fmax-errors=3', '-x', 'c++']


def headers():
    r = []
    for d, ds, fs in os.walk(os.path.join(P.REPO, 'include')):
        for f in fs:
            if f.endswith('.h') or f.endswith('.hpp'):
                r.append(os.path.relpath(os.path.join(d, f), os.path.join(P.REPO, 'include')))
    return sorted(r)


def accepts(inc, args=CXX):
    """type-checks the translation unit made of these includes; the first diagnostic, or nothing"""
    p = subprocess.run(args + ['-I' + os.path.join(P.REPO, 'include'), '-'], input=inc, text=True,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode == 0:
        return None
    for l in p.stdout.splitlines():
        if 'error' in l:
            return l.replace(P.REPO + '/', '').strip()
    return p.stdout.strip()[:300] or 'rejected'


def reached(h):
    """headers of the repository that this one brings in"""
    p = subprocess.run(['g++', '-std=gnu++20', '-MM', '-x', 'c++', '-I' + os.path.join(P.REPO, 'include'), '-'],
                       input='#include <%s>\n' % h, text=True, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
    base = os.path.join(P.REPO, 'include') + '/'
    return set(os.path.normpath(w)[len(base):] for w in p.stdout.replace('\\\n', ' ').split()
               if os.path.normpath(w).startswith(base))


def inc(hs):
    return ''.join('#include <%s>\n' % h for h in hs)


def strong(hs):
    """definitions in the headers that every file including them repeats: (name, where)"""
    d = tempfile.mkdtemp(prefix='vhdr')
    try:
        ll = os.path.join(d, 'h.ll')
        p = subprocess.run(['clang++', '-std=gnu++20', '-w', '-S', '-emit-llvm', '-gline-tables-only', '-x', 'c++',
                            '-I' + os.path.join(P.REPO, 'include'), '-o', ll, '-'],
                           input=inc(hs), text=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode != 0 or not os.path.exists(ll):
            return None
        txt = open(ll).read()
    finally:
        shutil.rmtree(d, ignore_errors=True)
    sub = {}
    files = dict((m.group(1), m.group(2)) for m in re.finditer(r'^!(\d+) = !DIFile\(filename: "([^"]*)"', txt, re.M))
    for m in re.finditer(r'^!(\d+) = distinct !DISubprogram\(name: "([^"]*)".*?file: !(\d+), line: (\d+)', txt, re.M):
        sub[m.group(1)] = '%s:%s' % (files.get(m.group(3), '?').replace(P.REPO + '/', ''), m.group(4))
    weak = ('linkonce', 'linkonce_odr', 'weak', 'weak_odr', 'internal', 'private', 'available_externally', 'common', 'external')
    out = []
    for m in re.finditer(r'^define ([^@]*)@("?[^("]*"?)\(.*?(?:!dbg !(\d+))? \{$', txt, re.M):
        if not any(w in weak for w in m.group(1).split()):
            out.append((m.group(2), sub.get(m.group(3), 'header')))
    for m in re.finditer(r'^@("?[^= "]*"?) = ([^\n]*)$', txt, re.M):
        w = m.group(2).split()
        if not any(x in weak for x in w[:4]) and ('global' in w[:6] or 'constant' in w[:6]) \
                and not m.group(1).startswith(('.str', 'llvm.', '__')):
            out.append((m.group(1), 'header'))
    names = [n.strip('"') for n, w in out]
    if names:
        p = subprocess.run(['c++filt'], input='\n'.join(names), text=True, stdout=subprocess.PIPE)
        out = list(zip(p.stdout.splitlines(), [w for n, w in out]))
    return out


def undefined(prog, hs):
    """functions a header declares and nothing defines"""
    d = tempfile.mkdtemp(prefix='vhdr')
    try:
        f = os.path.join(d, 'all.cpp')
        with open(f, 'w') as o:
            o.write(inc(hs))
        ex, bad = P.export_some([f])
    finally:
        shutil.rmtree(d, ignore_errors=True)
    if bad:
        return 0, []
    tu = P.TU(len(prog.tus), f, ex[0][1])
    both = P.Program(ex)
    n, out = 0, []
    base = os.path.join(P.REPO, 'include') + '/'
    for i, x in tu.decls.items():
        if x['kind'] != 'fn' or not str(x.get('file', '')).startswith(base):
            continue
        n += 1
        if x.get('tmpl') or x.get('lambdaop') or x.get('inline') or x.get('implicit') or x.get('defaulted') \
                or x.get('deleted') or x.get('pure') or x.get('constexpr'):
            continue
        m = x.get('mangled')
        if both.lookup(both.tus[0], i) is not None or m in prog.bymangled:
            continue
        out.append((x['qname'], '%s:%s' % (x['file'][len(P.REPO) + 1:], x['line'])))
    return n, out


def check(prog, tier):
    hs = headers()
    vs = []
    jobs = []
    for h in hs:
        rest = [x for x in hs if x != h]
        jobs.append(('alone', h, inc([h, h])))
        jobs.append(('first', h, inc([h] + rest)))
        jobs.append(('last', h, inc(rest[::-1] + [h])))
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(lambda j: accepts(j[2]), jobs))
    alone_bad = set()
    said = set()
    for (how, h, _), r in zip(jobs, res):
        if r is None:
            continue
        if how == 'alone':
            alone_bad.add(h)
            vs.append({'key': '%s by itself' % h, 'what': '%s cannot be the only header of a program: %s' % (h, r[:300]),
                       'at': where(r, h)})
    for (how, h, _), r in zip(jobs, res):
        # one report for one cause
        if r is None or how == 'alone' or alone_bad or where(r, h) in said:
            continue
        said.add(where(r, h))
        vs.append({'key': '%s with the others' % h, 'what': '%s %s all other headers: %s' % (
            h, 'before' if how == 'first' else 'after', r[:300]), 'at': where(r, h)})
    pairs = 0
    if tier == 'thorough' and not vs:
        with ThreadPoolExecutor(8) as ex:
            dep = dict(zip(hs, ex.map(reached, hs)))
            todo = [(a, b) for a in hs for b in hs if a != b and b not in dep[a]]
            pairs = len(todo)
            for (a, b), r in zip(todo, ex.map(lambda p: accepts(inc(p)), todo)):
                if r is not None:
                    vs.append({'key': '%s then %s' % (a, b), 'what': '%s cannot follow %s: %s' % (b, a, r[:300]), 'at': where(r, b)})
    st = strong(hs) or []
    for n, w in st:
        vs.append({'key': '%s defined' % n, 'what': '%s is defined by every source file that includes its header; two of them do not link' % n,
                   'at': w})
    nd, und = undefined(prog, hs)
    for n, w in und:
        vs.append({'key': '%s undefined' % n, 'what': '%s is declared for users and defined nowhere' % n, 'at': w})
    return {'rule': 'headers', 'instances': len(hs),
            'summary': '%d headers alone and twice, %d orders, %d ordered pairs, %d declarations: %d violations' % (
                len(hs), 2 * len(hs), pairs, nd, len(vs)),
            'headers': hs, 'ordered_pairs': pairs, 'declarations': nd,
            'rule_applied': 'every header type-checks as the only one, included twice, before and after all others (thorough: every ordered '
                            'pair not already included); the intermediate code of all headers together has no external strong definition; '
                            'every plain function declared has a body in a header or in src', 'violations': vs}


def where(diag, h):
    m = re.match(r'([^\s:]+:\d+)', diag)
    return m.group(1) if m and not m.group(1).startswith('<') else 'include/' + h
