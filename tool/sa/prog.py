"""Loads the exported program (several translation units) and links it."""
import json, os, subprocess, hashlib, sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(os.path.dirname(HERE))
REPO = os.environ.get('SA_REPO', '/repo')
DFX = os.path.join(VERIF, 'build', 'dfx')
ARGS = ['-resource-dir', '/usr/lib/llvm-18/lib/clang/18', '-std=gnu++20', '-include', 'cstdint',
        '-include', 'algorithm', '-w', '-I' + os.path.join(REPO, 'include')]
DRV = os.path.join(VERIF, 'tool', 'drivers')


class ExportError(Exception):
    pass


def export(src, out, roots, extra=()):
    p = subprocess.run([DFX, out, ':'.join(roots), src, '--'] + ARGS + list(extra),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0 or not os.path.exists(out):
        raise ExportError('%s: %s' % (src, p.stdout[:3000]))


def sources():
    r = []
    for d, ds, fs in os.walk(os.path.join(REPO, 'src')):
        for f in sorted(fs):
            if f.endswith('.cxx') or f.endswith('.cpp'):
                r.append(os.path.join(d, f))
    return sorted(r)


def export_all(files, tag='x'):
    """exports the files in parallel; returns list of (src, json)"""
    out = os.path.join(VERIF, 'build', 'ex-%d-%s' % (os.getpid(), tag))
    os.makedirs(out, exist_ok=True)
    jobs = []
    for f in files:
        o = os.path.join(out, hashlib.md5(f.encode()).hexdigest() + '.json')
        jobs.append((f, o))

    def one(j):
        export(j[0], j[1], [REPO + '/', DRV + '/'], ['-I' + DRV])
        with open(j[1]) as fh:
            r = json.load(fh)
        os.remove(j[1])
        return (j[0], r)
    try:
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, jobs))
    finally:
        for f, o in jobs:
            if os.path.exists(o):
                os.remove(o)
        try:
            os.rmdir(out)
        except OSError:
            pass
    return res


def export_some(files, tag='y'):
    """as export_all, but files that do not compile come back as (src, diagnostics)"""
    out = os.path.join(VERIF, 'build', 'ex-%d-%s' % (os.getpid(), tag))
    os.makedirs(out, exist_ok=True)

    def one(f):
        o = os.path.join(out, hashlib.md5(f.encode()).hexdigest() + '.json')
        try:
            try:
                export(f, o, [REPO + '/', DRV + '/'], ['-I' + DRV])
            except ExportError as x:
                return f, None, str(x)
            with open(o) as fh:
                return f, json.load(fh), None
        finally:
            if os.path.exists(o):
                os.remove(o)
    try:
        with ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, files))
    finally:
        try:
            os.rmdir(out)
        except OSError:
            pass
    return [(f, j) for f, j, x in res if x is None], [(f, x) for f, j, x in res if x is not None]


def first_error(diag):
    for l in diag.splitlines():
        if ': error:' in l or ': fatal error:' in l:
            p = l.split(': ')[0].split(':')
            return ':'.join(p[:2])
    return None


class Fn:
    __slots__ = ('tu', 'j', 'id', 'decl', 'file')

    def __init__(self, tu, j):
        self.tu = tu
        self.j = j
        self.id = j['id']
        self.decl = tu.decls[j['id']]
        self.file = j['file']

    def __repr__(self):
        return self.decl['qname']


class TU:
    def __init__(self, idx, src, j):
        self.idx = idx
        self.src = src
        self.decls = {int(k): v for k, v in j['decls'].items()}
        self.types = j['types']
        self.globals = j['globals']
        self.templates = j.get('templates', [])
        self.funcs = {}
        for f in j['funcs']:
            if f['id'] not in self.funcs:
                self.funcs[f['id']] = Fn(self, f)
        self.recname = {}
        for t in self.types:
            if t['k'] == 'record' and t.get('recid') is not None:
                self.recname.setdefault(t['recid'], t['u'])
        # callable objects: class id -> operator() functions
        self.callops = {}
        for i, d in self.decls.items():
            if d['kind'] == 'fn' and d.get('clsid') is not None and d['name'] == 'operator()':
                self.callops.setdefault(d['clsid'], []).append(i)
        self.kinds = {}
        self.ginit = {g['d']: g for g in self.globals}

    def type(self, i):
        return self.types[i]

    def kind(self, i):
        """abstract kind of a type: b,i,r,o,s.."""
        k = self.kinds.get(i)
        if k is None:
            k = self._kind(i)
            self.kinds[i] = k
        return k

    def _kind(self, i):
        if not isinstance(i, int) or i < 0:
            return 'o'
        t = self.types[i]
        k = t['k']
        if k == 'bool':
            return 'b'
        if k in ('int', 'uint'):
            return 'i'
        if k == 'float':
            return 'r'
        if k == 'carray':
            return 's' + self.kind(t['elem'])
        if k == 'record':
            r = t.get('rec')
            if r in ('std::vector', 'std::array', 'std::initializer_list', 'std::valarray', 'std::deque', 'std::list',
                     'std::span'):
                return 's' + self.kind(t['targs'][0])
            if r == 'std::basic_string' or r == 'std::basic_string_view':
                return 'si'
        return 'o'

    def unsigned(self, i):
        return isinstance(i, int) and i >= 0 and self.types[i]['k'] == 'uint'


class Program:
    def __init__(self, exports):
        self.tus = []
        self.bymangled = {}
        self.records = {}       # class name -> (tu, decl id)
        for src, j in exports:
            tu = TU(len(self.tus), src, j)
            self.tus.append(tu)
            for f in tu.funcs.values():
                m = f.decl.get('mangled')
                if m and (f.j.get('body') is not None or f.decl.get('ctor')):
                    self.bymangled.setdefault(m, f)
                    # complete/base object constructors are the same here
                    if 'C1' in m:
                        self.bymangled.setdefault(m.replace('C1', 'C2', 1), f)
            for i, d in tu.decls.items():
                if d['kind'] == 'record' and 'fields' in d:
                    self.records.setdefault(self.clsname(tu, i), (tu, i))

    def clsname(self, tu, recid):
        d = tu.decls[recid]
        if recid in tu.recname and not d.get('lambda') and 'anonymous' not in tu.recname[recid] \
                and '(lambda' not in tu.recname[recid]:
            return tu.recname[recid]
        if d.get('islambda') or d.get('lambda') or not d.get('name') or 'anonymous' in d.get('qname', '') \
                or 'lambda' in d.get('qname', ''):
            return 'lambda@%d:%d' % (tu.idx, recid)
        return d['qname']

    def lookup(self, tu, fid):
        """function body for a declaration id"""
        f = tu.funcs.get(fid)
        if f is not None and (f.j.get('body') is not None or f.decl.get('ctor')):
            return f
        d = tu.decls.get(fid)
        if d is None:
            return None
        m = d.get('mangled')
        if m and d.get('linkage') != 'int':
            return self.bymangled.get(m)
        return None
